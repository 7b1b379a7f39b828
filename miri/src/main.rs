//! Workloads for Miri: the library's own code, its dependencies in Rust and the standard library
//! run in an interpreter that reports undefined behaviour, data races, leaks and deadlocks. The C
//! library underneath is a toy in Rust (see secp256k1-sys). Behaviour is counted, not judged.
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

use bip324::io::{Payload, Protocol, ProtocolError};
use bip324::{
    GarbageResult, Handshake, InboundCipher, Initialized, OutboundCipher, PacketType, ReceivedKey, Role, VersionResult,
};
use bip324_traffic::{AtomicTrafficStats, DecoyStrategy, PaddingStrategy, TrafficConfig, TrafficStats};

const MAGIC: [u8; 4] = [0xF9, 0xBE, 0xB4, 0xD9];

static OK: AtomicU64 = AtomicU64::new(0);
static REFUSED: AtomicU64 = AtomicU64::new(0);

fn note<T, E>(r: Result<T, E>) -> Option<T> {
    match r {
        Ok(t) => {
            OK.fetch_add(1, SeqCst);
            Some(t)
        }
        Err(_) => {
            REFUSED.fetch_add(1, SeqCst);
            None
        }
    }
}

// ---- a small generator ---------------------------------------------------------------------
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    fn pick<T: Clone>(&mut self, of: &[T]) -> T {
        of[self.below(of.len() as u64) as usize].clone()
    }
}

// ---- an in-memory pipe ---------------------------------------------------------------------
#[derive(Default)]
struct State {
    data: VecDeque<u8>,
    closed: bool,
    limit: Option<usize>,
}
struct Pipe(Arc<(Mutex<State>, Condvar)>, usize);
struct Tx(Arc<(Mutex<State>, Condvar)>, usize);
fn pipe(chunk: usize, limit: Option<usize>) -> (Pipe, Tx) {
    let s = Arc::new((Mutex::new(State { limit, ..State::default() }), Condvar::new()));
    (Pipe(s.clone(), chunk), Tx(s, chunk))
}
impl Read for Pipe {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        // it may look into the buffer, as it is an initialized one
        let near = buf.len().min(16);
        std::hint::black_box(buf[..near].iter().chain(&buf[buf.len() - near..]).fold(0u8, |x, y| x ^ y));
        let mut s = self.0 .0.lock().unwrap();
        while s.data.is_empty() && !s.closed {
            s = self.0 .1.wait(s).unwrap();
        }
        let n = buf.len().min(s.data.len()).min(self.1);
        for b in buf[..n].iter_mut() {
            *b = s.data.pop_front().unwrap();
        }
        Ok(n)
    }
}
impl Drop for Pipe {
    fn drop(&mut self) {
        self.0 .0.lock().unwrap().closed = true;
        self.0 .1.notify_all();
    }
}
impl Write for Tx {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0 .0.lock().unwrap();
        if s.closed {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        let mut n = buf.len().min(self.1);
        if let Some(l) = s.limit.as_mut() {
            n = n.min(*l);
            *l -= n;
            if n == 0 {
                return Err(io::ErrorKind::ConnectionReset.into());
            }
        }
        s.data.extend(&buf[..n]);
        self.0 .1.notify_all();
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Drop for Tx {
    fn drop(&mut self) {
        self.0 .0.lock().unwrap().closed = true;
        self.0 .1.notify_all();
    }
}

// ---- low level -----------------------------------------------------------------------------
type Ciphers = (InboundCipher, OutboundCipher);

fn first_half(role: Role, garbage: &[u8]) -> Option<(Handshake<bip324::SentKey<'_>>, Vec<u8>)> {
    let h = Handshake::<Initialized>::new(MAGIC, role).ok()?;
    let mut out = vec![0u8; Handshake::<Initialized>::send_key_len(Some(garbage))];
    let h = h.send_key(Some(garbage), &mut out).ok()?;
    Some((h, out))
}

fn second_half(h: Handshake<bip324::SentKey<'_>>, theirs: &[u8], decoys: &[&[u8]]) -> Option<(Handshake<bip324::SentVersion>, Vec<u8>)> {
    let h = h.receive_key(theirs[..64].try_into().unwrap()).ok()?;
    let mut out = vec![0u8; Handshake::<ReceivedKey>::send_version_len(Some(decoys))];
    let h = h.send_version(&mut out, Some(decoys)).ok()?;
    Some((h, out))
}

fn finish(mut h: Handshake<bip324::SentVersion>, stream: &[u8], step: usize) -> Option<Ciphers> {
    let mut upto = step.min(stream.len());
    let (mut h, mut at) = loop {
        match note(h.receive_garbage(&stream[..upto]))? {
            GarbageResult::FoundGarbage { handshake, consumed_bytes } => break (handshake, consumed_bytes),
            GarbageResult::NeedMoreData(back) => {
                if upto == stream.len() {
                    return None;
                }
                h = back;
                upto = (upto + step).min(stream.len());
            }
        }
    };
    loop {
        let len = note(h.decrypt_packet_len(stream.get(at..at + 3)?.try_into().unwrap()))?;
        at += 3;
        let mut packet = stream.get(at..at + len)?.to_vec();
        at += len;
        match note(h.receive_version(&mut packet))? {
            VersionResult::Complete { cipher } => return Some(cipher.into_split()),
            VersionResult::Decoy(back) => h = back,
        }
    }
}

fn low(rng: &mut Rng) {
    for round in 0..4usize {
        let lens = [0usize, 1, 17, 120];
        let (ga, gb) = (rng.bytes(lens[round]), rng.bytes(lens[3 - round]));
        let (a, ka) = first_half(Role::Initiator, &ga).unwrap();
        let (b, kb) = first_half(Role::Responder, &gb).unwrap();
        let d = [rng.bytes(5), rng.bytes(0), rng.bytes(65)];
        let decoys: Vec<&[u8]> = d.iter().take(round).map(|d| &d[..]).collect();
        let (a, va) = second_half(a, &kb, &decoys).unwrap();
        let (b, vb) = second_half(b, &ka, &[]).unwrap();
        let step = [1usize, 7, 16, 5000][round];
        let to_a: Vec<u8> = kb[64..].iter().chain(&vb).copied().collect();
        let mut to_b: Vec<u8> = ka[64..].iter().chain(&va).copied().collect();
        if round == 3 {
            let at = rng.below(to_b.len() as u64) as usize;
            to_b[at] ^= 1;
        }
        let a = note(finish(a, &to_a, step).ok_or(()));
        let b = note(finish(b, &to_b, step).ok_or(()));
        if let (Some(a), Some(b)) = (a, b) {
            packets(rng, a, b, if round == 0 { 30 } else { 12 });
        }
    }
    // every header byte a peer could send
    for header in 0..=255u8 {
        match PacketType::from_byte(&header) {
            PacketType::Genuine => OK.fetch_add(1, SeqCst),
            kind => OK.fetch_add(u64::from(kind.to_byte() != 0), SeqCst),
        };
    }
    // refusals
    let mut small = [0u8; 63];
    let h = Handshake::<Initialized>::new(MAGIC, Role::Initiator).unwrap();
    note(h.send_key(None, &mut small));
    let long = vec![0u8; 4096];
    let mut big = vec![0u8; 5000];
    let h = Handshake::<Initialized>::new(MAGIC, Role::Initiator).unwrap();
    note(h.send_key(Some(&long), &mut big));
    let (a, _) = first_half(Role::Initiator, &[]).unwrap();
    let (_, kb) = first_half(Role::Responder, &[]).unwrap();
    let h = a.receive_key(kb[..64].try_into().unwrap()).unwrap();
    note(h.send_version(&mut small[..10], None));
    let (b, _) = first_half(Role::Responder, &[]).unwrap();
    let mut v1 = [0u8; 64];
    v1[..4].copy_from_slice(&MAGIC);
    v1[4..16].copy_from_slice(b"version\0\0\0\0\0");
    note(b.receive_key(v1));
    let (b, kb) = first_half(Role::Responder, &[]).unwrap();
    note(b.receive_key(kb[..64].try_into().unwrap()));
    // Endless garbage
    let (a, _) = first_half(Role::Initiator, &[]).unwrap();
    let (_, kb) = first_half(Role::Responder, &[]).unwrap();
    let (a, _) = second_half(a, &kb, &[]).unwrap();
    note(a.receive_garbage(&vec![0x55; 4112]));
}

fn packets(rng: &mut Rng, a: Ciphers, b: Ciphers, n: usize) {
    let ((mut ain, mut aout), (mut bin, mut bout)) = (a, b);
    // The first re-keying is a few packets ahead
    #[cfg(bip324_verif)]
    {
        aout.verif_seek(217);
        bin.verif_seek(217);
        bout.verif_seek(217);
        ain.verif_seek(217);
    }
    for i in 0..n {
        let len = match i {
            0..=3 => [0, 1, 63, 130][i],
            _ => rng.below(20) as usize,
        };
        let plain = rng.bytes(len);
        let aad = rng.bytes(rng.0 as usize % 33);
        let aad = if i % 3 == 0 { None } else { Some(&aad[..]) };
        let kind = if i % 4 == 1 { PacketType::Decoy } else { PacketType::Genuine };
        let (out, inb) = if i % 2 == 0 { (&mut aout, &mut bin) } else { (&mut bout, &mut ain) };
        let packet = if i % 5 == 0 {
            out.encrypt_to_vec(&plain, kind, aad)
        } else {
            let extra = i % 3;
            let mut buf = vec![0u8; OutboundCipher::encryption_buffer_len(len) + extra];
            if note(out.encrypt(&plain, &mut buf, kind, aad)).is_none() {
                return;
            }
            buf.truncate(len + 20);
            if i % 7 == 3 {
                let mut short = vec![0u8; len + 19];
                note(out.encrypt(&plain, &mut short, kind, aad));
            }
            buf
        };
        let rest = inb.decrypt_packet_len(packet[..3].try_into().unwrap());
        if rest + 3 != packet.len() {
            return;
        }
        if i % 6 == 2 {
            let mut bad = packet[3..].to_vec();
            let at = rng.below(bad.len() as u64) as usize;
            bad[at] ^= 0x10;
            let mut room = vec![0u8; rest];
            note(inb.decrypt(&bad, &mut room, aad));
            note(inb.decrypt_to_vec(&bad, aad));
            note(inb.decrypt_in_place(&mut bad, aad));
            note(inb.decrypt(&packet[3..], &mut room[..rest - 17], aad));
            note(inb.decrypt(&packet[3..10], &mut room, aad));
            note(inb.decrypt_in_place(&mut bad[..16], aad));
        }
        match i % 3 {
            0 => {
                let mut c = packet[3..].to_vec();
                note(inb.decrypt_in_place(&mut c, aad).map(|(_, p)| p.iter().fold(0u8, |x, y| x ^ y)));
            }
            1 => {
                let mut room = vec![0u8; InboundCipher::decryption_buffer_len(rest) + i % 2];
                note(inb.decrypt(&packet[3..], &mut room, aad));
                std::hint::black_box(room.iter().fold(0u8, |x, y| x ^ y));
            }
            _ => {
                if let Some((_, v)) = note(inb.decrypt_to_vec(&packet[3..], aad)) {
                    std::hint::black_box(v.iter().fold(0u8, |x, y| x ^ y));
                }
            }
        }
        if i == n / 2 {
            let (c, d) = (out.clone(), inb.clone());
            drop((c, d));
        }
    }
}

// ---- the blocking interface ----------------------------------------------------------------
fn exchange(p: Result<Protocol<Pipe, Tx>, ProtocolError>, n: u64, way: u64) {
    let Some(mut p) = note(p) else { return };
    for i in 0..n {
        let contents = vec![i as u8; (i * 37 % 200) as usize];
        let payload = if i % 3 == 2 { Payload::decoy(contents) } else { Payload::genuine(contents) };
        if note(p.write(&payload)).is_none() {
            return;
        }
    }
    if way == 0 {
        for _ in 0..n {
            if let Some(r) = note(p.read()) {
                std::hint::black_box((r.contents().len(), r.packet_type()));
            }
        }
        return;
    }
    let (mut r, mut w) = p.into_split();
    std::thread::scope(|s| {
        s.spawn(move || {
            for _ in 0..n {
                if note(r.read()).is_none() {
                    return;
                }
            }
            if way == 2 {
                let (_c, mut inner) = r.into_inner();
                let mut left = [0u8; 1];
                note(inner.read(&mut left));
            } else {
                note(r.read());
            }
        });
        s.spawn(move || {
            for _ in 0..n / 2 {
                if note(w.write(&Payload::genuine(vec![7; 9]))).is_none() {
                    return;
                }
            }
            if way == 2 {
                let (_c, mut inner) = w.into_inner();
                note(inner.write_all(&[0; 40]));
            }
        });
    });
}

fn sync(rng: &mut Rng, deep: bool) {
    for round in if deep { 0..4u64 } else { 1..4 } {
        let chunk = rng.pick(&[1usize, 3, 16, 4096]).max(if round == 0 { 1 } else { 3 });
        let limit = if round == 3 { Some(rng.below(300) as usize) } else { None };
        let (ra, wb) = pipe(chunk, None);
        let (rb, wa) = pipe(4096, limit);
        let (g, h) = (rng.bytes(rng.0 as usize % 60), rng.bytes(rng.0 as usize % 9));
        let d = vec![rng.bytes(3), rng.bytes(30)];
        std::thread::scope(|s| {
            s.spawn(move || exchange(Protocol::new(MAGIC, Role::Initiator, Some(g), Some(d), ra, wa), 6, round % 3));
            s.spawn(move || {
                let none = if round == 1 { None } else { Some(h) };
                exchange(Protocol::new(MAGIC, Role::Responder, none, None, rb, wb), 6, round % 3)
            });
        });
    }
    // a peer that speaks V1, one that closes at once, and one that sends noise
    for bytes in [[&MAGIC[..], b"version\0\0\0\0\0", &[0u8; 100]].concat(), vec![], rng.bytes(5000)] {
        let (r, mut w) = pipe(4096, None);
        let (_keep, out) = pipe(4096, None);
        let _ = w.write_all(&bytes);
        drop(w);
        note(Protocol::new(MAGIC, Role::Responder, None, None, r, out));
    }
}

// ---- asynchronous --------------------------------------------------------------------------
fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}

fn futures(rng: &mut Rng, deep: bool) {
    use bip324::futures::Protocol;
    for round in 0..if deep { 3 } else { 2u64 } {
        let (a, b) = tokio::io::duplex([400usize, 8192, 700][round as usize]);
        let (ra, wa) = tokio::io::split(a);
        let (rb, wb) = tokio::io::split(b);
        let seed = rng.next();
        rt().block_on(async move {
            let (g, d) = (Rng(seed).bytes(40), vec![Rng(seed).bytes(8)]);
            let (pa, pb) = tokio::join!(
                Protocol::new(MAGIC, Role::Initiator, Some(g), Some(d), ra, wa),
                Protocol::new(MAGIC, Role::Responder, None, None, rb, wb),
            );
            let (Some(pa), Some(pb)) = (note(pa), note(pb)) else { return };
            let (mut ar, mut aw) = pa.into_split();
            let (mut br, mut bw) = pb.into_split();
            let writer = tokio::spawn(async move {
                for i in 0..8u64 {
                    note(aw.write(&Payload::genuine(vec![1; (i * 19) as usize])).await);
                    tokio::time::sleep(Duration::from_millis(3)).await;
                }
                // abandoned half-way: nobody reads that much in time
                let big = Payload::genuine(vec![2; if deep { 9000 } else { 1200 }]);
                let _ = tokio::time::timeout(Duration::from_millis(1), aw.write(&big)).await;
                drop(aw.into_inner());
            });
            let back = tokio::spawn(async move {
                note(bw.write(&Payload::decoy(vec![3; 100])).await);
                note(ar.read().await);
            });
            for i in 0..40 {
                // abandoned and resumed reads
                match tokio::time::timeout(Duration::from_millis(1 + i % 3), br.read()).await {
                    Ok(r) => {
                        if note(r).is_none() {
                            break;
                        }
                    }
                    Err(_) => {
                        OK.fetch_add(1, SeqCst);
                    }
                }
            }
            let (_c, inner) = br.into_inner();
            drop(inner);
            let _ = writer.await;
            let _ = back.await;
        });
    }
    // dropped at every stage of the handshake
    for ms in 0..if deep { 4 } else { 2u64 } {
        let ms = ms * if deep { 1 } else { 2 };
        let (a, mut b) = tokio::io::duplex(300);
        let (ra, wa) = tokio::io::split(a);
        let noise = rng.bytes(200);
        rt().block_on(async move {
            let hs = Protocol::new(MAGIC, Role::Initiator, Some(vec![1; 50]), None, ra, wa);
            let feed = async {
                use tokio::io::AsyncWriteExt;
                for c in noise.chunks(50) {
                    let _ = b.write_all(c).await;
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
            };
            tokio::select! {
                r = hs => { note(r); }
                _ = async { tokio::time::sleep(Duration::from_millis(ms)).await } => {}
                _ = feed => {}
            }
        });
    }
}

// ---- shaped --------------------------------------------------------------------------------
fn configs(rng: &mut Rng) -> TrafficConfig {
    TrafficConfig::new()
        .with_padding_strategy(rng.pick(&[PaddingStrategy::Disabled, PaddingStrategy::Random]))
        .with_decoy_strategy(rng.pick(&[DecoyStrategy::Disabled, DecoyStrategy::Random, DecoyStrategy::Random]))
}

fn shaped(rng: &mut Rng) {
    use bip324_traffic::io::ShapedProtocol;
    for round in 0..2u64 {
        let (ra, wb) = pipe(4096, None);
        let limit = if round == 1 { Some(3000 + rng.below(9000) as usize) } else { None };
        let (rb, wa) = pipe(4096, limit);
        let (ca, cb) = (configs(rng), configs(rng));
        std::thread::scope(|s| {
            s.spawn(move || {
                let Some(p) = note(ShapedProtocol::new(MAGIC, Role::Initiator, ca, ra, wa)) else { return };
                let (mut r, mut w) = p.into_split();
                std::thread::scope(|s| {
                    s.spawn(move || {
                        for i in 0..3 {
                            if note(w.write(&Payload::genuine(vec![5; 40 * i]))).is_none() {
                                break;
                            }
                            std::thread::sleep(Duration::from_millis(120));
                        }
                    });
                    s.spawn(move || while note(r.read()).is_some() {});
                });
            });
            s.spawn(move || {
                let Some(mut p) = note(ShapedProtocol::new(MAGIC, Role::Responder, cb, rb, wb)) else { return };
                note(p.write(&Payload::genuine(vec![6; 10])));
                for _ in 0..2 {
                    if note(p.read()).is_none() {
                        break;
                    }
                }
                std::thread::sleep(Duration::from_millis(250));
            });
        });
    }
    // background threads that were told to stop do so within an interval
    std::thread::sleep(Duration::from_secs(4));
}

fn ashaped(rng: &mut Rng) {
    use bip324_traffic::futures::ShapedProtocol;
    for round in 0..2u64 {
        let (a, b) = tokio::io::duplex(16384);
        let (ra, wa) = tokio::io::split(a);
        let (rb, wb) = tokio::io::split(b);
        let (ca, cb) = (configs(rng), configs(rng));
        rt().block_on(async move {
            let (pa, pb) = tokio::join!(
                ShapedProtocol::new(MAGIC, Role::Initiator, ca, ra, wa),
                ShapedProtocol::new(MAGIC, Role::Responder, cb, rb, wb),
            );
            let (Some(mut pa), Some(pb)) = (note(pa), note(pb)) else { return };
            let (mut br, mut bw) = pb.into_split();
            let other = tokio::spawn(async move {
                for _ in 0..4 {
                    let _ = tokio::time::timeout(Duration::from_millis(150), br.read()).await;
                }
                note(bw.write(&Payload::genuine(vec![4; 33])).await);
            });
            for i in 0..3 {
                note(pa.write(&Payload::genuine(vec![8; 11 * i])).await);
                if round == 1 {
                    let gone = Payload::genuine(vec![9; 20]);
                    let _ = tokio::time::timeout(Duration::ZERO, pa.write(&gone)).await;
                }
                tokio::time::sleep(Duration::from_millis(110)).await;
            }
            let _ = tokio::time::timeout(Duration::from_millis(300), pa.read()).await;
            drop(pa);
            let _ = other.await;
        });
    }
}

fn stats() {
    let stats = Arc::new(AtomicTrafficStats::new());
    std::thread::scope(|s| {
        for t in 0..4usize {
            let stats = stats.clone();
            s.spawn(move || {
                for i in 0..25 {
                    match (t + i) % 4 {
                        0 | 1 => stats.record_read(i),
                        2 => stats.record_write(i * t),
                        _ => {
                            std::hint::black_box((stats.time_since_last_activity(), stats.write_read_ratio()));
                        }
                    }
                    OK.fetch_add(1, SeqCst);
                }
            });
        }
    });
    std::hint::black_box(stats.write_read_ratio());
}

fn main() {
    let mut args = std::env::args().skip(1);
    let what = args.next().unwrap_or_default();
    let seed = args.next().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let deep = args.next().is_some();
    let mut rng = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    for _ in 0..8 {
        rng.next();
    }
    match &what[..] {
        "low" => low(&mut rng),
        "sync" => sync(&mut rng, deep),
        "futures" => futures(&mut rng, deep),
        "shaped" => shaped(&mut rng),
        "ashaped" => ashaped(&mut rng),
        "stats" => stats(),
        "nothing" => {}
        _ => panic!("which workload?"),
    }
    println!("DONE {what} succeeded={} refused={}", OK.load(SeqCst), REFUSED.load(SeqCst));
}
