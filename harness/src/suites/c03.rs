//! C03: every payload exactly once, in order, unmodified, across interfaces and transitions.

use super::t;
use crate::peer::*;
use crate::pipe::{park_on, pipe, Inner, PR, PW};
use crate::run::{fam, par, sleepy, Case, CaseResult, Suite, Tier};
use crate::util::{first_diff, mix, Rng};
use crate::{ensure, vio};
use bip324::io::Payload;
use bip324::{CipherSession, InboundCipher, OutboundCipher, PacketType, Role};
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Iface {
    Low,
    Sync,
    Async,
}
const IFACES: [Iface; 3] = [Iface::Low, Iface::Sync, Iface::Async];

enum Rd {
    S(bip324::io::ProtocolReader<PR>),
    A(bip324::futures::ProtocolReader<PR>),
    /// After taking the parts of a sync reader, or a low-level session.
    LowS(InboundCipher, Box<dyn Read + Send>),
    LowA(InboundCipher, bip324::futures::ProtocolSessionReader<PR>),
}
enum Wr {
    S(bip324::io::ProtocolWriter<PW>),
    A(bip324::futures::ProtocolWriter<PW>),
    LowS(OutboundCipher, PW),
    LowA(OutboundCipher, PW),
}
enum End {
    S(bip324::io::Protocol<PR, PW>),
    A(bip324::futures::Protocol<PR, PW>),
    Low(CipherSession, PR, PW),
    Halves(Rd, Wr),
}

fn read_low(
    c: &mut InboundCipher,
    entry: usize,
    mut get: impl FnMut(&mut [u8]) -> std::io::Result<()>,
) -> Result<(PacketType, Vec<u8>), String> {
    let mut l = [0u8; 3];
    get(&mut l).map_err(|e| e.to_string())?;
    let n = c.decrypt_packet_len(l);
    if n > 5_000_000 {
        return Err(format!("length {n}"));
    }
    let mut b = vec![0u8; n];
    get(&mut b).map_err(|e| e.to_string())?;
    let (t, p) = low_decrypt(c, &b, entry, None).map_err(|e| e.to_string())?;
    Ok((t, p[1..].to_vec()))
}

fn write_low(c: &mut OutboundCipher, vec: bool, p: &Payload) -> Result<Vec<u8>, String> {
    Ok(if vec {
        c.encrypt_to_vec(p.contents(), p.packet_type(), None)
    } else {
        let mut b = vec![0u8; OutboundCipher::encryption_buffer_len(p.contents().len())];
        c.encrypt(p.contents(), &mut b, p.packet_type(), None)
            .map_err(|e| e.to_string())?;
        b
    })
}

thread_local! {
    /// The last payload a protocol reader returned on this thread, to be passed on as it is.
    static RELAY: std::cell::RefCell<Option<Payload>> = const { std::cell::RefCell::new(None) };
}

fn conv(r: Result<Payload, bip324::io::ProtocolError>) -> Result<(PacketType, Vec<u8>), String> {
    r.map(|p| {
        let x = (p.packet_type(), p.contents().to_vec());
        RELAY.with(|c| *c.borrow_mut() = Some(p));
        x
    })
        .map_err(|e| err_class(&e))
}

impl Rd {
    fn read(&mut self, entry: usize) -> Result<(PacketType, Vec<u8>), String> {
        match self {
            Rd::S(r) => conv(r.read()),
            Rd::A(r) => conv(park_on(r.read())),
            Rd::LowS(c, r) => read_low(c, entry, |b| r.read_exact(b)),
            Rd::LowA(c, r) => read_low(c, entry, |b| park_on(r.read_exact(b)).map(|_| ())),
        }
    }
    fn inner(self) -> Rd {
        match self {
            Rd::S(r) => {
                let (c, r) = r.into_inner();
                Rd::LowS(c, Box::new(r))
            }
            Rd::A(r) => {
                let (c, r) = r.into_inner();
                Rd::LowA(c, r)
            }
            x => x,
        }
    }
}
impl Wr {
    fn write(&mut self, vec: bool, p: &Payload) -> Result<(), String> {
        match self {
            Wr::S(w) => w.write(p).map_err(|e| err_class(&e)),
            Wr::A(w) => park_on(w.write(p)).map_err(|e| err_class(&e)),
            Wr::LowS(c, w) => {
                let b = write_low(c, vec, p)?;
                Write::write_all(w, &b).map_err(|e| e.to_string())
            }
            Wr::LowA(c, w) => {
                let b = write_low(c, vec, p)?;
                park_on(AsyncWriteExt::write_all(w, &b)).map_err(|e| e.to_string())
            }
        }
    }
    fn inner(self) -> Wr {
        match self {
            Wr::S(w) => {
                let (c, w) = w.into_inner();
                Wr::LowS(c, w)
            }
            Wr::A(w) => {
                let (c, w) = w.into_inner();
                Wr::LowA(c, w)
            }
            x => x,
        }
    }
}
impl End {
    fn read(&mut self, entry: usize) -> Result<(PacketType, Vec<u8>), String> {
        match self {
            End::S(p) => conv(p.read()),
            End::A(p) => conv(park_on(p.read())),
            End::Low(c, r, _) => read_low(c.inbound(), entry, |b| Read::read_exact(r, b)),
            End::Halves(r, _) => r.read(entry),
        }
    }
    fn write(&mut self, vec: bool, p: &Payload) -> Result<(), String> {
        match self {
            End::S(c) => c.write(p).map_err(|e| err_class(&e)),
            End::A(c) => park_on(c.write(p)).map_err(|e| err_class(&e)),
            End::Low(c, _, w) => {
                let b = write_low(c.outbound(), vec, p)?;
                Write::write_all(w, &b).map_err(|e| e.to_string())
            }
            End::Halves(_, w) => w.write(vec, p),
        }
    }
    fn split(self) -> End {
        match self {
            End::S(p) => {
                let (r, w) = p.into_split();
                End::Halves(Rd::S(r), Wr::S(w))
            }
            End::A(p) => {
                let (r, w) = p.into_split();
                End::Halves(Rd::A(r), Wr::A(w))
            }
            End::Low(c, r, w) => {
                let (i, o) = c.into_split();
                End::Halves(Rd::LowS(i, Box::new(r)), Wr::LowS(o, w))
            }
            x => x,
        }
    }
    fn halves(self) -> (Rd, Wr) {
        match self.split() {
            End::Halves(r, w) => (r, w),
            _ => unreachable!(),
        }
    }
}

struct Hs {
    iface: Iface,
    role: Role,
    garbage: Option<Vec<u8>>,
    decoys: OptDecoys,
    seed: u64,
}

/// Handshake of one endpoint over its pipes; blocks.
fn open(h: Hs, mut rd: PR, mut wr: PW) -> Result<End, String> {
    match h.iface {
        Iface::Sync => bip324::io::Protocol::new(MAGIC, h.role, h.garbage, h.decoys, rd, wr)
            .map(End::S)
            .map_err(|e| err_class(&e)),
        Iface::Async => park_on(bip324::futures::Protocol::new(
            MAGIC, h.role, h.garbage, h.decoys, rd, wr,
        ))
        .map(End::A)
        .map_err(|e| err_class(&e)),
        Iface::Low => {
            use bip324::*;
            let mut r = Rng::new(h.seed);
            let e = |e: Error| e.to_string();
            let refs: Option<Vec<&[u8]>> = h
                .decoys
                .as_ref()
                .map(|d| d.iter().map(|x| x.as_slice()).collect());
            let hs = initialized(MAGIC, h.role, rand_secret(&mut r));
            let g = h.garbage.as_deref();
            let mut kb = vec![0u8; Handshake::<Initialized>::send_key_len(g)];
            let hs = hs.send_key(g, &mut kb).map_err(e)?;
            Write::write_all(&mut wr, &kb).map_err(|e| e.to_string())?;
            let mut tk = [0u8; 64];
            Read::read_exact(&mut rd, &mut tk).map_err(|e| e.to_string())?;
            let hs = hs.receive_key(tk).map_err(e)?;
            let mut vb = vec![0u8; Handshake::<ReceivedKey>::send_version_len(refs.as_deref())];
            let mut hs = hs.send_version(&mut vb, refs.as_deref()).map_err(e)?;
            Write::write_all(&mut wr, &vb).map_err(|e| e.to_string())?;
            let mut gb = Vec::new();
            let (mut hs, _) = loop {
                match hs.receive_garbage(&gb).map_err(e)? {
                    GarbageResult::FoundGarbage {
                        handshake,
                        consumed_bytes,
                    } => break (handshake, consumed_bytes),
                    GarbageResult::NeedMoreData(x) => {
                        hs = x;
                        let mut b = [0u8; 1];
                        Read::read_exact(&mut rd, &mut b).map_err(|e| e.to_string())?;
                        gb.push(b[0]);
                    }
                }
            };
            loop {
                let mut l = [0u8; 3];
                Read::read_exact(&mut rd, &mut l).map_err(|e| e.to_string())?;
                let n = hs.decrypt_packet_len(l).map_err(e)?;
                let mut b = vec![0u8; n];
                Read::read_exact(&mut rd, &mut b).map_err(|e| e.to_string())?;
                match hs.receive_version(&mut b).map_err(e)? {
                    VersionResult::Complete { cipher } => return Ok(End::Low(cipher, rd, wr)),
                    VersionResult::Decoy(x) => hs = x,
                }
            }
        }
    }
}

fn hs_opts(r: &mut Rng, iface: Iface, role: Role) -> Hs {
    let garbage = match r.below(4) {
        0 => None,
        1 => {
            let n = r.below(4096);
            Some(r.bytes(n))
        }
        _ => {
            let n = r.below(60);
            Some(r.bytes(n))
        }
    };
    let decoys = match r.below(3) {
        0 => None,
        _ => Some(
            (0..r.below(4))
                .map(|_| {
                    let n = r.small_size();
                    r.content(n)
                })
                .collect(),
        ),
    };
    Hs {
        iface,
        role,
        garbage,
        decoys,
        seed: r.u64(),
    }
}

fn connect(
    r: &mut Rng,
    a: Iface,
    b: Iface,
    cap: usize,
) -> Result<(End, End, Inner, Inner), crate::run::Fail> {
    // The handshake pipes must take a whole handshake message, as both sides send first.
    let (w1, r1) = pipe(cap.max(1 << 14));
    let (w2, r2) = pipe(cap.max(1 << 14));
    for w in [&w1, &w2] {
        let mut g = w.0 .0.lock().unwrap();
        g.max_read = *r.pick(&[1usize, 2, 5, 64, 257, 4096, usize::MAX, usize::MAX]);
        g.max_write = *r.pick(&[1usize, 7, 100, usize::MAX, usize::MAX]);
    }
    let (i1, i2) = (w1.0.clone(), w2.0.clone());
    let ha = hs_opts(r, a, Role::Initiator);
    let hb = hs_opts(r, b, Role::Responder);
    let ea = Mutex::new(None);
    let eb = Mutex::new(None);
    par(vec![
        Box::new(|| {
            match open(ha, r2, w1) {
                Ok(e) => *ea.lock().unwrap() = Some(e),
                Err(e) => vio!("{a:?} initiator with {b:?} responder: handshake fails: {e}"),
            }
            Ok(())
        }),
        Box::new(|| {
            match open(hb, r1, w2) {
                Ok(e) => *eb.lock().unwrap() = Some(e),
                Err(e) => vio!("{b:?} responder with {a:?} initiator: handshake fails: {e}"),
            }
            Ok(())
        }),
    ])?;
    for i in [&i1, &i2] {
        let mut g = i.0.lock().unwrap();
        g.cap = cap;
    }
    Ok((
        ea.into_inner().unwrap().unwrap(),
        eb.into_inner().unwrap().unwrap(),
        i1,
        i2,
    ))
}

/// Unique contents: stream tag and sequence number in front when there is room.
fn message(r: &mut Rng, stream: u8, seq: u64, size: usize) -> Payload {
    let mut m = r.content(size);
    let mut id = vec![stream];
    id.extend_from_slice(&seq.to_le_bytes());
    let n = id.len().min(m.len());
    m[..n].copy_from_slice(&id[..n]);
    if r.chance(1, 5) {
        Payload::decoy(m)
    } else {
        Payload::genuine(m)
    }
}

fn same(got: &(PacketType, Vec<u8>), want: &Payload, what: &str, k: usize) -> CaseResult {
    ensure!(
        got.0 == want.packet_type(),
        "{what}: payload {k} delivered as {:?}, sent as {:?}",
        got.0,
        want.packet_type()
    );
    ensure!(
        got.1 == want.contents(),
        "{what}: payload {k} differs from the one sent ({} bytes, sent {}), first at {:?}",
        got.1.len(),
        want.contents().len(),
        first_diff(&got.1, want.contents())
    );
    Ok(())
}

fn size(r: &mut Rng, big: bool) -> usize {
    if big && r.chance(1, 40) {
        *r.pick(&[65_535usize, 65_536, 100_000, 1_000_000, 4_000_013])
    } else {
        r.small_size()
    }
}

/// Random interleavings of sends and receives with transitions, decided step by step.
fn scheduled(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let ia = IFACES[(c.idx % 3) as usize];
    let ib = IFACES[((c.idx / 3) % 3) as usize];
    let (a, b, _, _) = connect(r, ia, ib, usize::MAX)?;
    let mut ends = [Some(a), Some(b)];
    let mut queue: [Vec<Payload>; 2] = [Vec::new(), Vec::new()]; // sent by i
    let mut read = [0usize; 2]; // read by the other end of i
    let steps = match r.below(12) {
        0 => 1400,
        1..=3 => 500,
        _ => 60,
    };
    let big = r.chance(1, 12);
    let mut trans = 0u64;
    let mut shape = 0u64;
    let mut relayed = 0u64;
    RELAY.with(|c| c.borrow_mut().take());
    for k in 0..steps {
        let i = r.below(2);
        let op = r.below(40);
        let e = ends[i].take().unwrap();
        let mut e = match (op, e) {
            (0, e) => {
                trans += 1;
                shape = mix(shape, 10 + k as u64 * 2 + i as u64);
                e.split()
            }
            (1, End::Halves(rd, wr)) => {
                trans += 1;
                shape = mix(shape, 20 + k as u64 * 2 + i as u64);
                End::Halves(rd.inner(), wr)
            }
            (2, End::Halves(rd, wr)) => {
                trans += 1;
                shape = mix(shape, 30 + k as u64 * 2 + i as u64);
                End::Halves(rd, wr.inner())
            }
            (_, e) => e,
        };
        let what = format!("{ia:?}/{ib:?} direction {i}");
        if op < 3 {
        } else if op < 22 {
            let n = size(r, big);
            let p = match r.below(12) {
                // pass on what was read, or send the same again
                0 | 1 => RELAY.with(|c| c.borrow_mut().take()).inspect(|_| relayed += 1),
                2 => queue[i].last().cloned(),
                _ => None,
            };
            let p = p.unwrap_or_else(|| message(r, i as u8, queue[i].len() as u64, n));
            let n = p.contents().len();
            if let Err(x) = e.write(r.coin(), &p) {
                vio!("{what}: write {} of {n} bytes fails: {x}", queue[i].len());
            }
            queue[i].push(p);
            shape = mix(shape, i as u64);
        } else {
            // this end reads what the other sent
            let from = 1 - i;
            if read[from] < queue[from].len() {
                let entry = r.below(3);
                let w = format!("{ia:?}/{ib:?} direction {from}");
                match e.read(entry) {
                    Ok(g) => same(&g, &queue[from][read[from]], &w, read[from])?,
                    Err(x) => vio!("{w}: read {} fails: {x}", read[from]),
                }
                read[from] += 1;
                shape = mix(shape, 2 + i as u64);
                c.local.evals += 1;
            }
        }
        ends[i] = Some(e);
    }
    for from in 0..2 {
        let mut e = ends[1 - from].take().unwrap();
        while read[from] < queue[from].len() {
            let w = format!("{ia:?}/{ib:?} direction {from}");
            match e.read(r.below(3)) {
                Ok(g) => same(&g, &queue[from][read[from]], &w, read[from])?,
                Err(x) => vio!("{w}: read {} fails: {x}", read[from]),
            }
            read[from] += 1;
            c.local.evals += 1;
        }
        ends[1 - from] = Some(e);
    }
    c.count("payloads_delivered", (read[0] + read[1]) as u64);
    c.count("transitions", trans);
    c.count("payloads passed on", relayed);
    c.sig(&[ia as u64, ib as u64, shape]);
    c.sample(|| {
        format!(
            "{ia:?}-{ib:?} {} + {} payloads, {trans} transitions, all delivered in order",
            read[0], read[1]
        )
    });
    Ok(())
}

/// Several sessions used in turn on one thread, others opened, failed and dropped in between:
/// what happens in one session shows in no other.
fn interleaved(c: &mut Case) -> CaseResult {
    struct Sess {
        ends: [End; 2],
        queue: [Vec<Payload>; 2],
        read: [usize; 2],
    }
    let r = &mut c.rng;
    let open = |r: &mut Rng| -> Result<Sess, crate::run::Fail> {
        let (ia, ib) = (IFACES[r.below(3)], IFACES[r.below(3)]);
        let (a, b, _, _) = connect(r, ia, ib, usize::MAX)?;
        Ok(Sess {
            ends: [a, b],
            queue: [Vec::new(), Vec::new()],
            read: [0, 0],
        })
    };
    let n = r.range(2, 4);
    let mut all = Vec::new();
    for _ in 0..n {
        all.push(open(r)?);
    }
    let (mut delivered, mut broken, mut shape, mut opened) = (0u64, 0u64, 0u64, n as u64);
    for k in 0..r.range(40, 300) {
        let j = r.below(all.len());
        let i = r.below(2);
        let op = r.below(40);
        if op == 0 && all.len() < 5 {
            let s = open(r)?;
            opened += 1;
            all.push(s);
        } else if op == 1 && all.len() > 2 {
            // gone with whatever was still under way
            drop(all.swap_remove(j));
        } else if op == 2 {
            // a session that goes away with a payload under way
            let mut s = open(r)?;
            opened += 1;
            let z = size(r, false);
            let p = message(r, 9, k as u64, z);
            if s.ends[0].write(r.coin(), &p).is_err() {
                vio!("write of {z} bytes fails");
            }
            drop(s.ends);
            broken += 1;
        } else if op < 22 {
            let z = size(r, false);
            let s = &mut all[j];
            let p = message(r, (j * 2 + i) as u8, s.queue[i].len() as u64, z);
            if let Err(x) = s.ends[i].write(r.coin(), &p) {
                vio!("session {j} of {opened}: write {} of {z} bytes fails: {x}", s.queue[i].len());
            }
            s.queue[i].push(p);
            shape = mix(shape, (j * 2 + i) as u64);
        } else {
            let s = &mut all[j];
            let from = 1 - i;
            if s.read[from] < s.queue[from].len() {
                let w = format!("one of {opened} sessions, direction {from}");
                match s.ends[i].read(r.below(3)) {
                    Ok(g) => same(&g, &s.queue[from][s.read[from]], &w, s.read[from])?,
                    Err(x) => vio!("{w}: read {} fails: {x}", s.read[from]),
                }
                s.read[from] += 1;
                delivered += 1;
                shape = mix(shape, 100 + (j * 2 + i) as u64);
            }
        }
    }
    for s in &mut all {
        for from in 0..2 {
            while s.read[from] < s.queue[from].len() {
                let w = format!("one of {opened} sessions, direction {from}");
                match s.ends[1 - from].read(r.below(3)) {
                    Ok(g) => same(&g, &s.queue[from][s.read[from]], &w, s.read[from])?,
                    Err(x) => vio!("{w}: read {} fails: {x}", s.read[from]),
                }
                s.read[from] += 1;
                delivered += 1;
            }
        }
    }
    c.evals(delivered);
    c.count("payloads_delivered", delivered);
    c.count("interleaved sessions", opened);
    c.count("sessions dropped in use", broken);
    c.sig(&[7, shape]);
    Ok(())
}

/// Full duplex with four threads over small pipes; readers move to low level mid-way.
fn concurrent(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let ia = IFACES[(c.idx % 3) as usize];
    let ib = IFACES[((c.idx / 3) % 3) as usize];
    let cap = *r.pick(&[1usize, 3, 20, 64, 300, 5000, 1 << 20]);
    let (a, b, i1, i2) = connect(r, ia, ib, cap)?;
    let n: usize = if cap < 20 { 40 } else { r.range(100, 700) };
    let mk = |r: &mut Rng, s: u8| -> Arc<Vec<Payload>> {
        Arc::new(
            (0..n as u64)
                .map(|k| {
                    let z = if cap < 20 { r.below(40) } else { size(r, false) };
                    message(r, s, k, z)
                })
                .collect(),
        )
    };
    let (qa, qb) = (mk(r, 1), mk(r, 2));
    let (ra, wa) = a.halves();
    let (rb, wb) = b.halves();
    let seeds: Vec<u64> = (0..4).map(|_| r.u64()).collect();
    let writer = |mut w: Wr, q: Arc<Vec<Payload>>, seed: u64, d: &'static str| {
        move || -> CaseResult {
            let mut r = Rng::new(seed);
            let at = r.below(q.len() * 2);
            for (k, p) in q.iter().enumerate() {
                if k == at {
                    w = w.inner();
                }
                if let Err(e) = w.write(r.coin(), p) {
                    vio!("{ia:?}/{ib:?} {d}: write {k} fails: {e}");
                }
            }
            Ok(())
        }
    };
    let reader = |mut x: Rd, q: Arc<Vec<Payload>>, seed: u64, d: &'static str| {
        move || -> CaseResult {
            let mut r = Rng::new(seed);
            let at = r.below(q.len() * 2);
            for (k, p) in q.iter().enumerate() {
                if k == at {
                    x = x.inner();
                }
                match x.read(r.below(3)) {
                    Ok(g) => same(&g, p, d, k)?,
                    Err(e) => vio!("{ia:?}/{ib:?} {d}: read {k} fails: {e}"),
                }
            }
            // nothing more may come
            match x.read(0) {
                Ok(g) => vio!("{d}: extra payload of {} bytes", g.1.len()),
                Err(_) => Ok(()),
            }
        }
    };
    par(vec![
        Box::new(writer(wa, qa.clone(), seeds[0], "a to b")),
        Box::new(reader(rb, qa, seeds[1], "a to b")),
        Box::new(writer(wb, qb.clone(), seeds[2], "b to a")),
        Box::new(reader(ra, qb, seeds[3], "b to a")),
    ])?;
    let stalls = i1.0.lock().unwrap().stalls + i2.0.lock().unwrap().stalls;
    c.count("payloads_delivered", 2 * n as u64);
    c.count("concurrent_sessions", 1);
    c.count("backpressure_stalls", stalls);
    c.evals(2 * n as u64);
    c.sig(&[ia as u64, ib as u64, cap as u64, n as u64]);
    Ok(())
}

/// Session packets coalesced with the end of the handshake, taken over by the low-level cipher.
fn leftover(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let kind = KINDS[(c.idx % 2) as usize];
    let role = ROLES[((c.idx / 2) % 2) as usize];
    let n = crate::net::net(r.u64());
    let mut cfg = PeerCfg::varied(r, role);
    let k = 1 + r.below(12);
    for q in 0..k {
        let z = r.small_size();
        let mut m = r.content(z);
        if let Some(x) = m.first_mut() {
            *x = q as u8;
        }
        let h = if r.chance(1, 4) { 0x80 } else { 0 };
        cfg.session.push(pkt(h, &m));
    }
    n.lock().unwrap().rseg = match r.below(4) {
        0 => crate::net::Seg::All,
        1 => crate::net::Seg::Fixed(1 + r.below(300)),
        _ => crate::net::Seg::Random(600),
    };
    let want = cfg.session.clone();
    let (conn, _) = established(kind, role, cfg, None, None, &n);
    let take = r.below(k + 1);
    let (mut rd, _w) = conn.split();
    let mut got: Vec<(PacketType, Vec<u8>)> = Vec::new();
    for q in 0..take {
        match rd.read() {
            Ok(p) => got.push((p.packet_type(), p.contents().to_vec())),
            Err(e) => vio!("{kind:?}: read {q} fails: {}", err_class(&e)),
        }
    }
    match rd {
        ConnR::S(p) => {
            let (mut ci, mut sr) = p.into_inner();
            for q in take..k {
                match read_low(&mut ci, r.below(3), |b| sr.read_exact(b)) {
                    Ok(g) => got.push(g),
                    Err(e) => vio!("sync parts after {take} reads: packet {q}: {e}"),
                }
            }
        }
        ConnR::A(p, n) => {
            let (mut ci, mut sr) = p.into_inner();
            for q in take..k {
                match read_low(&mut ci, r.below(3), |b| {
                    crate::net::block(sr.read_exact(b), &[&n]).map(|_| ())
                }) {
                    Ok(g) => got.push(g),
                    Err(e) => vio!("async parts after {take} reads: packet {q}: {e}"),
                }
            }
        }
    }
    for (q, (g, w)) in got.iter().zip(&want).enumerate() {
        same(g, &payload(w), "coalesced", q)?;
    }
    c.count("coalesced_packets", k as u64);
    c.evals(k as u64);
    c.sig(&[kind as u64, role_init(role) as u64, k as u64, take as u64]);
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    Suite {
        id: "C03",
        level: "exploration",
        rule: "Recorded histories of uniquely numbered payloads between two instances of the real code, each low-level, sync or async; an offline order/exactly-once checker compares what was read with what was sent. Distinct = different pair of interfaces with a different interleaving of sends, reads and hand-overs (split, into_inner, continue with low-level ciphers).",
        assumptions: vec!["Both endpoints live in one process and are connected by reliable in-memory pipes (capacities from 1 byte up)."],
        families: vec![
            fam("scheduled", t(tier, 900, 30_000), scheduled),
            sleepy("concurrent", t(tier, 180, 5000), 1200, concurrent),
            fam("interleaved", t(tier, 300, 8000), interleaved),
            fam("leftover", t(tier, 1500, 40_000), leftover),
        ],
        require: vec!["payloads_delivered", "transitions", "concurrent_sessions", "backpressure_stalls", "coalesced_packets", "payloads passed on", "interleaved sessions"],
    }
}
