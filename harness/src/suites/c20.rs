//! C20: the two directions of a session are independent.

use super::t;
use crate::net::{net, Fault, Seg, Shared, R, STARVED};
use crate::peer::*;
use crate::run::{fam, sleepy, Case, CaseResult, Fail, Suite, Tier};
use crate::shaped::{self, unblock, RecRef, RecW};
use crate::util::Rng;
use crate::{ensure, vio};
use bip324::io::{Payload, ProtocolError};
use std::future::Future;
use std::io::{ErrorKind, Read};
use std::pin::Pin;
use std::sync::mpsc;
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::io::{AsyncRead, ReadBuf};

/// Reads wait for bytes.
struct Wait(R);
impl Read for Wait {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        loop {
            match self.0.read(b) {
                Err(e) if e.to_string().contains(STARVED) => {
                    self.0 .0.lock().unwrap().starved = 0;
                    std::thread::sleep(Duration::from_millis(1));
                }
                x => return x,
            }
        }
    }
}
impl AsyncRead for Wait {
    fn poll_read(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        b: &mut ReadBuf<'_>,
    ) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.0).poll_read(cx, b)
    }
}

enum Rd {
    Ps(bip324::io::ProtocolReader<Wait>),
    Pa(bip324::futures::ProtocolReader<Wait>),
    Ss(bip324_traffic::io::ShapedProtocolReader<Wait>),
    Sa(bip324_traffic::futures::ShapedProtocolReader<Wait>),
}
enum Wr {
    Ps(bip324::io::ProtocolWriter<RecW>),
    Pa(bip324::futures::ProtocolWriter<RecW>),
    Ss(bip324_traffic::io::ShapedProtocolWriter<RecW>),
    Sa(bip324_traffic::futures::ShapedProtocolWriter),
}
impl Rd {
    async fn read(&mut self) -> Result<Payload, ProtocolError> {
        match self {
            Rd::Ps(r) => r.read(),
            Rd::Pa(r) => r.read().await,
            Rd::Ss(r) => r.read(),
            Rd::Sa(r) => r.read().await,
        }
    }
}
impl Wr {
    async fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        match self {
            Wr::Ps(w) => w.write(p),
            Wr::Pa(w) => w.write(p).await,
            Wr::Ss(w) => w.write(p),
            Wr::Sa(w) => w.write(p).await,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum K {
    PlainSync,
    PlainAsync,
    ShapedSync,
    ShapedAsync,
}
const KS: [K; 4] = [K::PlainSync, K::PlainAsync, K::ShapedSync, K::ShapedAsync];
impl K {
    fn sync(self) -> bool {
        matches!(self, K::PlainSync | K::ShapedSync)
    }
    fn shaped(self) -> bool {
        matches!(self, K::ShapedSync | K::ShapedAsync)
    }
}

#[derive(Clone)]
struct S {
    k: K,
    padding: bool,
    decoys: bool,
    n: Shared,
    p: PeerRef,
    rec: RecRef,
}

fn run<F: Future>(k: K, rt: &tokio::runtime::Runtime, f: F) -> F::Output {
    if k.sync() {
        futures_block(f)
    } else {
        rt.block_on(f)
    }
}

/// The blocking interfaces never suspend.
fn futures_block<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = Context::from_waker(std::task::Waker::noop());
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(x) => x,
        Poll::Pending => panic!("blocking interface suspended"),
    }
}

async fn open(s: &S, role: bip324::Role, garbage: Vec<u8>, w: RecW) -> Result<(Rd, Wr), ProtocolError> {
    let r = Wait(R(s.n.clone()));
    let cfg = shaped::config(s.padding, s.decoys);
    Ok(match s.k {
        K::PlainSync => {
            let (r, w) = bip324::io::Protocol::new(MAGIC, role, Some(garbage), None, r, w)?.into_split();
            (Rd::Ps(r), Wr::Ps(w))
        }
        K::PlainAsync => {
            let (r, w) = bip324::futures::Protocol::new(MAGIC, role, Some(garbage), None, r, w)
                .await?
                .into_split();
            (Rd::Pa(r), Wr::Pa(w))
        }
        K::ShapedSync => {
            let (r, w) = bip324_traffic::io::ShapedProtocol::new(MAGIC, role, cfg, r, w)?.into_split();
            (Rd::Ss(r), Wr::Ss(w))
        }
        K::ShapedAsync => {
            let (r, w) = bip324_traffic::futures::ShapedProtocol::new(MAGIC, role, cfg, r, w)
                .await?
                .into_split();
            (Rd::Sa(r), Wr::Sa(w))
        }
    })
}

fn start(k: K, r: &mut Rng) -> (S, bip324::Role, Vec<u8>, RecW) {
    let role = ROLES[r.below(2)];
    let (padding, decoys) = *r.pick(&shaped::STRATEGIES);
    let cfg = PeerCfg::varied(r, role);
    let n = net(r.u64());
    {
        let mut g = n.lock().unwrap();
        g.log = false;
        g.rseg = Seg::Random(*r.pick(&[3usize, 300, 100_000]));
        g.starve_pending = !k.sync();
    }
    let p = attach(&n, cfg, None);
    let (rec, w) = shaped::rec(r.u64(), &n);
    let g = r.below(100);
    let garbage = r.bytes(g);
    (S { k, padding, decoys, n, p, rec }, role, garbage, w)
}

fn encode(s: &S, pkts: &[Pkt]) -> Vec<u8> {
    let mut v = Vec::new();
    let mut p = s.p.lock().unwrap();
    let sess = p.session.as_mut().expect("session");
    for x in pkts {
        v.extend_from_slice(&sess.send.packet(x.header, &x.contents, &[]));
    }
    v
}

fn packets(r: &mut Rng, n: usize) -> Vec<Pkt> {
    (0..n)
        .map(|i| pkt(*r.pick(&[0u8, 0, 0x80]), &shaped::message(r, i, 3000)))
        .collect()
}
fn messages(r: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    (0..n).map(|i| shaped::message(r, i, 3000)).collect()
}

/// All of them, in order.
async fn expect(s: &S, rd: &mut Rd, pkts: &[Pkt], when: &str) -> CaseResult {
    for (i, x) in pkts.iter().enumerate() {
        let got = if s.k.sync() {
            rd.read().await
        } else {
            match tokio::time::timeout(Duration::from_secs(1000), rd.read()).await {
                Ok(x) => x,
                Err(_) => vio!("{:?}: read {i} never completes {when}", s.k),
            }
        };
        match got {
            Ok(p) => ensure!(
                p.contents() == x.contents && p.packet_type() == ptype(x.header),
                "{:?}: read {i} {when} returns something else than the peer sent",
                s.k
            ),
            Err(e) => vio!("{:?}: read {i} {when} fails: {}", s.k, err_class(&e)),
        }
    }
    Ok(())
}

async fn send(s: &S, wr: &mut Wr, msgs: &[Vec<u8>], when: &str) -> CaseResult {
    for (i, m) in msgs.iter().enumerate() {
        let p = Payload::genuine(m.clone());
        let res = if s.k.sync() {
            wr.write(&p).await
        } else {
            match tokio::time::timeout(Duration::from_secs(1000), wr.write(&p)).await {
                Ok(x) => x,
                Err(_) => vio!("{:?}: write {i} never completes {when}", s.k),
            }
        };
        if let Err(e) = res {
            vio!("{:?}: write {i} {when} fails: {}", s.k, err_class(&e));
        }
    }
    Ok(())
}

/// Everything sent parses, the genuine packets are `want` (at least `min` of them).
fn judge(s: &S, want: &[Vec<u8>], min: usize, cut: bool, when: &str) -> CaseResult {
    let sess = take_session(&s.p);
    let out = s.rec.0.lock().unwrap().out.clone();
    let w = match shaped::wire(&out, &sess) {
        Ok(w) => w,
        Err(e) => vio!("{:?}: bytes sent {when} do not parse: {e}", s.k),
    };
    if !cut {
        ensure!(w.leftover == 0, "{:?}: partial packet sent {when}", s.k);
    }
    shaped::check_genuine(&w, want, min)
}

const BOUND: u32 = 100;
/// Own heartbeats: a stalled machine stalls them as well.
fn beats<T>(n: u32, mut f: impl FnMut() -> Option<T>) -> Option<T> {
    for i in 0..n * 100 {
        if let Some(x) = f() {
            return Some(x);
        }
        std::thread::sleep(Duration::from_millis(if i < 50 { 1 } else { 10 }));
        if i > 50 + n * 10 {
            break;
        }
    }
    f()
}

/// Run on another thread; None when it does not return within the bound.
fn aside<T: Send + 'static>(
    f: impl FnOnce() -> Result<T, Fail> + Send + 'static,
) -> Result<mpsc::Receiver<Result<T, Fail>>, Fail> {
    let (tx, rx) = mpsc::channel();
    std::thread::Builder::new()
        .name("vh-side".into())
        .spawn(move || {
            let _ = tx.send(crate::run::guarded(f).and_then(|x| x));
        })
        .map_err(|e| Fail::Inconclusive(format!("thread: {e}")))?;
    Ok(rx)
}
fn wait<T>(rx: &mpsc::Receiver<Result<T, Fail>>) -> Option<Result<T, Fail>> {
    beats(BOUND, || rx.try_recv().ok())
}

/// The transport accepts nothing while the peer keeps sending.
fn stalled_write(c: &mut Case) -> CaseResult {
    let k = KS[(c.idx % 4) as usize];
    let r = &mut c.rng;
    let (s, role, garbage, w) = start(k, r);
    let rt = shaped::runtime();
    let before = { let n = r.below(3); messages(r, n) };
    let stuck = { let n = r.range(1, 4); messages(r, n) };
    let early = { let n = r.below(4); packets(r, n) };
    let pkts = { let n = r.range(1, 60); packets(r, n) };
    let after = { let n = r.below(4); messages(r, n) };
    s.rec.0.lock().unwrap().max_write = *r.pick(&[usize::MAX, 50]);
    let idle = if k == K::ShapedSync { r.below(120) as u64 } else { 0 };
    let mut want = before.clone();
    want.extend(stuck.iter().cloned());
    want.extend(after.iter().cloned());
    let n_stuck = stuck.len();
    let s1 = s.clone();
    let res: CaseResult = run(k, &rt, async move {
        let s = s1;
        let (mut rd, mut wr) = match open(&s, role, garbage, w).await {
            Ok(x) => x,
            Err(e) => vio!("{k:?}: handshake: {}", err_class(&e)),
        };
        send(&s, &mut wr, &before, "before the stall").await?;
        let bytes = encode(&s, &early);
        s.n.lock().unwrap().push(&bytes);
        expect(&s, &mut rd, &early, "before the stall").await?;
        s.rec.0.lock().unwrap().blocked = true;
        let s2 = s.clone();
        let when = "while the other direction is stalled";
        if k.sync() {
            let wrx = aside(move || {
                futures_block(send(&s2, &mut wr, &stuck, "over a slow transport"))?;
                Ok(wr)
            })?;
            if beats(BOUND, || (s.rec.0.lock().unwrap().blocked_calls > 0).then_some(())).is_none() {
                unblock(&s.rec);
                return Err(Fail::Inconclusive("write did not start".into()));
            }
            std::thread::sleep(Duration::from_millis(idle));
            let bytes = encode(&s, &pkts);
            s.n.lock().unwrap().push(&bytes);
            let s3 = s.clone();
            let rrx = aside(move || {
                futures_block(expect(&s3, &mut rd, &pkts, when))?;
                Ok(rd)
            })?;
            let got = wait(&rrx);
            let still = s.rec.0.lock().unwrap().blocked;
            unblock(&s.rec);
            match got {
                Some(x) => drop(x?),
                None => vio!("{k:?}: reads do not return {when}"),
            }
            ensure!(still, "stall ended early");
            let mut wr = match wait(&wrx) {
                Some(x) => x?,
                None => vio!("{k:?}: stalled write does not return after the stall"),
            };
            send(&s, &mut wr, &after, "after the stall").await?;
            drop(wr);
        } else {
            let h = tokio::spawn(async move {
                send_slow(&s2, &mut wr, &stuck).await?;
                Ok::<Wr, Fail>(wr)
            });
            tokio::time::sleep(Duration::from_millis(50)).await;
            let bytes = encode(&s, &pkts);
            s.n.lock().unwrap().push(&bytes);
            expect(&s, &mut rd, &pkts, when).await?;
            ensure!(!h.is_finished(), "{k:?}: write over a stalled transport returned");
            unblock(&s.rec);
            let mut wr = match tokio::time::timeout(Duration::from_secs(1000), h).await {
                Ok(Ok(x)) => x?,
                Ok(Err(e)) => vio!("{k:?}: {e}"),
                Err(_) => vio!("{k:?}: stalled write does not return after the stall"),
            };
            send(&s, &mut wr, &after, "after the stall").await?;
            drop(wr);
            tokio::time::sleep(Duration::from_secs(2)).await;
        }
        Ok(())
    });
    res?;
    judge(&s, &want, want.len(), false, "around a stall")?;
    c.eval();
    c.count("sessions stalled in one direction", 1);
    c.sample(|| format!("{k:?}: sessions stalled in one direction, {} payloads sent, padding {}, decoys {}", want.len(), s.padding, s.decoys));
    c.sig(&[1, k as u64, s.padding as u64, s.decoys as u64, n_stuck as u64, want.len() as u64]);
    Ok(())
}

async fn send_slow(s: &S, wr: &mut Wr, msgs: &[Vec<u8>]) -> CaseResult {
    for m in msgs {
        if let Err(e) = wr.write(&Payload::genuine(m.clone())).await {
            vio!("{:?}: write over a slow transport fails: {}", s.k, err_class(&e));
        }
    }
    Ok(())
}

/// A read waits in the middle of a packet (or before one) while this side keeps sending.
fn stalled_read(c: &mut Case) -> CaseResult {
    let k = KS[(c.idx % 4) as usize];
    let r = &mut c.rng;
    let (s, role, garbage, w) = start(k, r);
    let rt = shaped::runtime();
    let msgs = { let n = r.range(1, 40); messages(r, n) };
    let pkts = { let n = r.range(1, 4); packets(r, n) };
    let cutr = r.u64();
    let want = msgs.clone();
    let s1 = s.clone();
    let res: Result<usize, Fail> = run(k, &rt, async move {
        let s = s1;
        let (mut rd, mut wr) = match open(&s, role, garbage, w).await {
            Ok(x) => x,
            Err(e) => vio!("{k:?}: handshake: {}", err_class(&e)),
        };
        let bytes = encode(&s, &pkts);
        let cut = Rng::new(cutr).below(bytes.len());
        s.n.lock().unwrap().push(&bytes[..cut]);
        let when = "while a read waits";
        let s2 = s.clone();
        let s3 = s.clone();
        if k.sync() {
            let rrx = aside(move || {
                futures_block(expect(&s2, &mut rd, &pkts, "around a wait"))?;
                Ok(rd)
            })?;
            std::thread::sleep(Duration::from_millis(2));
            let wrx = aside(move || {
                futures_block(send(&s3, &mut wr, &msgs, when))?;
                Ok(wr)
            })?;
            let sent = wait(&wrx);
            s.n.lock().unwrap().push(&bytes[cut..]);
            match sent {
                Some(x) => drop(x?),
                None => vio!("{k:?}: writes do not return {when}"),
            }
            match wait(&rrx) {
                Some(x) => drop(x?),
                None => vio!("{k:?}: reads do not return although everything arrived"),
            }
        } else {
            let h = tokio::spawn(async move {
                for (i, x) in pkts.iter().enumerate() {
                    match rd.read().await {
                        Ok(p) => ensure!(
                            p.contents() == x.contents && p.packet_type() == ptype(x.header),
                            "{k:?}: read {i} around a wait returns something else than the peer sent"
                        ),
                        Err(e) => vio!("{k:?}: read {i} around a wait fails: {}", err_class(&e)),
                    }
                }
                Ok(rd)
            });
            tokio::time::sleep(Duration::from_millis(10)).await;
            send(&s, &mut wr, &msgs, when).await?;
            s.n.lock().unwrap().push(&bytes[cut..]);
            match tokio::time::timeout(Duration::from_secs(1000), h).await {
                Ok(Ok(x)) => drop(x?),
                Ok(Err(e)) => vio!("{k:?}: {e}"),
                Err(_) => vio!("{k:?}: reads do not return although everything arrived"),
            }
            drop(wr);
            tokio::time::sleep(Duration::from_secs(2)).await;
        }
        Ok(cut)
    });
    let cut = res?;
    judge(&s, &want, want.len(), false, "while a read waits")?;
    c.eval();
    c.count("sessions waiting in one direction", 1);
    c.sample(|| format!("{k:?}: sessions waiting in one direction, {} payloads sent, padding {}, decoys {}", want.len(), s.padding, s.decoys));
    c.sig(&[2, k as u64, s.padding as u64, s.decoys as u64, cut as u64, want.len() as u64]);
    Ok(())
}

/// One direction fails or ends, the other goes on.
fn failed(c: &mut Case) -> CaseResult {
    let k = KS[(c.idx % 4) as usize];
    let r = &mut c.rng;
    let (s, role, garbage, w) = start(k, r);
    let rt = shaped::runtime();
    let before = { let n = r.below(3); messages(r, n) };
    let msgs = { let n = r.range(1, 20); messages(r, n) };
    let early = { let n = r.below(3); packets(r, n) };
    let pkts = { let n = r.range(1, 30); packets(r, n) };
    let how = r.below(10);
    let twice = r.below(3);
    let seed = r.u64();
    let idle = if k == K::ShapedSync { *r.pick(&[0u64, 0, 130, 250]) } else { *r.pick(&[0u64, 130, 900, 5000]) };
    let mut want = before.clone();
    want.extend(msgs.iter().cloned());
    let min = if how < 6 { want.len() } else { before.len() };
    let s1 = s.clone();
    let res: CaseResult = run(k, &rt, async move {
        let s = s1;
        let mut r = Rng::new(seed);
        let (mut rd, mut wr) = match open(&s, role, garbage, w).await {
            Ok(x) => x,
            Err(e) => vio!("{k:?}: handshake: {}", err_class(&e)),
        };
        send(&s, &mut wr, &before, "before the failure").await?;
        let bytes = encode(&s, &early);
        s.n.lock().unwrap().push(&bytes);
        expect(&s, &mut rd, &early, "before the failure").await?;
        if how < 6 {
            // the receiving direction fails
            let mut bytes = encode(&s, &pkts[..1]);
            match how {
                0 => s.n.lock().unwrap().eof = true,
                1 => {
                    let i = 3 + r.below(bytes.len() - 3);
                    bytes[i] ^= 1 << r.below(8);
                    s.n.lock().unwrap().push(&bytes);
                }
                2 => {
                    // too long to be accepted
                    bytes[2] ^= 0xff;
                    bytes.extend_from_slice(&r.bytes(50));
                    let mut g = s.n.lock().unwrap();
                    g.push(&bytes);
                    g.eof = true;
                }
                3 => {
                    bytes.truncate(1 + r.below(bytes.len() - 1));
                    let mut g = s.n.lock().unwrap();
                    g.push(&bytes);
                    g.eof = true;
                }
                _ => {
                    let e = *r.pick(&[
                        ErrorKind::ConnectionReset,
                        ErrorKind::TimedOut,
                        ErrorKind::BrokenPipe,
                        ErrorKind::Other,
                    ]);
                    let mut g = s.n.lock().unwrap();
                    g.end_err = Some(e);
                }
            }
            for _ in 0..=twice {
                if k.sync() {
                    let s2 = s.clone();
                    if twice > 0 && how == 1 {
                        s2.n.lock().unwrap().eof = true;
                    }
                }
                if how == 1 && !k.sync() {
                    s.n.lock().unwrap().eof = true;
                }
                if let Ok(x) = rd.read().await {
                    vio!("{k:?}: read over a failed direction ({how}) returns {} bytes", x.contents().len());
                }
            }
            let wait = idle + if r.coin() { 0 } else { 1 };
            if k.sync() {
                std::thread::sleep(Duration::from_millis(wait));
            } else {
                tokio::time::sleep(Duration::from_millis(wait)).await;
            }
            if r.chance(1, 4) {
                drop(rd);
            }
            send(&s, &mut wr, &msgs, "after reading failed").await?;
        } else {
            // the sending direction fails
            {
                let mut g = s.rec.0.lock().unwrap();
                g.sticky = true;
                let k = g.writes;
                let f = *r.pick(&[
                    Fault::Zero,
                    Fault::Err(ErrorKind::BrokenPipe),
                    Fault::Err(ErrorKind::ConnectionReset),
                    Fault::Err(ErrorKind::Other),
                ]);
                g.wfault = Some((k, f));
            }
            for m in msgs.iter().take(twice) {
                if wr.write(&Payload::genuine(m.clone())).await.is_ok() {
                    vio!("{k:?}: write over a broken transport reported success");
                }
            }
            if k.sync() {
                std::thread::sleep(Duration::from_millis(idle));
            } else {
                tokio::time::sleep(Duration::from_millis(idle)).await;
            }
            let bytes = encode(&s, &pkts);
            s.n.lock().unwrap().push(&bytes);
            expect(&s, &mut rd, &pkts, "after writing failed").await?;
        }
        drop(wr);
        if !k.sync() {
            tokio::time::sleep(Duration::from_secs(2)).await;
        }
        Ok(())
    });
    res?;
    judge(&s, &want, min, how >= 6, "around a failure of the other direction")?;
    c.eval();
    c.count(if how < 6 { "failed receiving directions" } else { "failed sending directions" }, 1);
    c.sig(&[3, k as u64, how as u64, s.padding as u64, s.decoys as u64, twice as u64, want.len() as u64]);
    Ok(())
}

/// One half is dropped or moved away, the other works on.
fn dropped(c: &mut Case) -> CaseResult {
    let k = KS[(c.idx % 4) as usize];
    let r = &mut c.rng;
    let (s, role, garbage, w) = start(k, r);
    let rt = shaped::runtime();
    let msgs = { let n = r.range(1, 30); messages(r, n) };
    let pkts = { let n = r.range(1, 30); packets(r, n) };
    let drop_reader = r.coin();
    let idle = if k == K::ShapedSync { *r.pick(&[0u64, 0, 130]) } else { *r.pick(&[0u64, 130, 3000]) };
    let want = if drop_reader { msgs.clone() } else { Vec::new() };
    let s1 = s.clone();
    let res: CaseResult = run(k, &rt, async move {
        let s = s1;
        let (mut rd, mut wr) = match open(&s, role, garbage, w).await {
            Ok(x) => x,
            Err(e) => vio!("{k:?}: handshake: {}", err_class(&e)),
        };
        let bytes = encode(&s, &pkts);
        s.n.lock().unwrap().push(&bytes);
        if drop_reader {
            drop(rd);
        } else {
            drop(wr);
            if k.sync() {
                std::thread::sleep(Duration::from_millis(idle));
            } else {
                tokio::time::sleep(Duration::from_millis(idle)).await;
            }
            return expect(&s, &mut rd, &pkts, "after the writer was dropped").await;
        }
        if k.sync() {
            std::thread::sleep(Duration::from_millis(idle));
        } else {
            tokio::time::sleep(Duration::from_millis(idle)).await;
        }
        send(&s, &mut wr, &msgs, "after the reader was dropped").await?;
        drop(wr);
        if !k.sync() {
            tokio::time::sleep(Duration::from_secs(2)).await;
        }
        Ok(())
    });
    res?;
    judge(&s, &want, want.len(), false, "after a half was dropped")?;
    c.eval();
    c.count("sessions with one half dropped", 1);
    c.sample(|| format!("{k:?}: sessions with one half dropped, {} payloads sent, padding {}, decoys {}", want.len(), s.padding, s.decoys));
    c.sig(&[4, k as u64, drop_reader as u64, s.padding as u64, s.decoys as u64, idle, want.len() as u64]);
    if k.shaped() {
        c.count("shaped sessions with one half dropped", 1);
    }
    Ok(())
}

enum Un {
    P(bip324::futures::Protocol<Wait, RecW>),
    S(bip324_traffic::futures::ShapedProtocol<Wait>),
    Ps(bip324::io::Protocol<Wait, RecW>),
    Ss(bip324_traffic::io::ShapedProtocol<Wait, RecW>),
}
impl Un {
    async fn open(s: &S, role: bip324::Role, garbage: Vec<u8>, w: RecW) -> Result<Un, ProtocolError> {
        let r = Wait(R(s.n.clone()));
        let cfg = shaped::config(s.padding, s.decoys);
        Ok(match s.k {
            K::PlainSync => Un::Ps(bip324::io::Protocol::new(MAGIC, role, Some(garbage), None, r, w)?),
            K::ShapedSync => Un::Ss(bip324_traffic::io::ShapedProtocol::new(MAGIC, role, cfg, r, w)?),
            K::PlainAsync => Un::P(bip324::futures::Protocol::new(MAGIC, role, Some(garbage), None, r, w).await?),
            K::ShapedAsync => Un::S(bip324_traffic::futures::ShapedProtocol::new(MAGIC, role, cfg, r, w).await?),
        })
    }
    async fn read(&mut self) -> Result<Payload, ProtocolError> {
        match self {
            Un::P(p) => p.read().await,
            Un::S(p) => p.read().await,
            Un::Ps(p) => p.read(),
            Un::Ss(p) => p.read(),
        }
    }
    async fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        match self {
            Un::P(x) => x.write(p).await,
            Un::S(x) => x.write(p).await,
            Un::Ps(x) => x.write(p),
            Un::Ss(x) => x.write(p),
        }
    }
}

/// One direction of an undivided connection fails, the other goes on.
fn failed_whole(c: &mut Case) -> CaseResult {
    let k = KS[(c.idx % 4) as usize];
    let r = &mut c.rng;
    let (s, role, garbage, w) = start(k, r);
    let rt = shaped::runtime();
    let msgs = { let n = r.range(1, 20); messages(r, n) };
    let early = { let n = r.below(3); packets(r, n) };
    let pkts = { let n = r.range(1, 20); packets(r, n) };
    let how = r.below(8);
    let seed = r.u64();
    let split_late = r.chance(1, 4);
    let receive = how < 5;
    let want = if receive { msgs.clone() } else { Vec::new() };
    let s1 = s.clone();
    let res: CaseResult = run(k, &rt, async move {
        let s = s1;
        let mut r = Rng::new(seed);
        let mut p = match Un::open(&s, role, garbage, w).await {
            Ok(p) => p,
            Err(e) => vio!("{k:?}: handshake: {}", err_class(&e)),
        };
        let bytes = encode(&s, &early);
        s.n.lock().unwrap().push(&bytes);
        for (i, x) in early.iter().enumerate() {
            match p.read().await {
                Ok(y) => ensure!(y.contents() == x.contents, "{k:?}: read {i} differs"),
                Err(e) => vio!("{k:?}: read {i}: {}", err_class(&e)),
            }
        }
        if receive {
            let mut bytes = encode(&s, &pkts[..1]);
            match how {
                0 => {}
                1 => {
                    let i = 3 + r.below(bytes.len() - 3);
                    bytes[i] ^= 1 << r.below(8);
                }
                2 => bytes[2] ^= 0xff,
                3 => bytes.truncate(1 + r.below(bytes.len() - 1)),
                _ => {
                    let e = *r.pick(&[ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::Other]);
                    s.n.lock().unwrap().end_err = Some(e);
                }
            }
            {
                let mut g = s.n.lock().unwrap();
                if (1..4).contains(&how) {
                    g.push(&bytes);
                }
                if how < 4 {
                    g.eof = true;
                }
            }
            for _ in 0..r.range(1, 3) {
                if let Ok(x) = p.read().await {
                    vio!("{k:?}: read over a failed direction ({how}) returns {} bytes", x.contents().len());
                }
            }
            for (i, m) in msgs.iter().enumerate() {
                if let Err(e) = p.write(&Payload::genuine(m.clone())).await {
                    vio!("{k:?}: write {i} after reading failed ({how}): {}", err_class(&e));
                }
            }
        } else {
            {
                let mut g = s.rec.0.lock().unwrap();
                g.sticky = true;
                let at = g.writes;
                let f = *r.pick(&[
                    Fault::Zero,
                    Fault::Err(ErrorKind::BrokenPipe),
                    Fault::Err(ErrorKind::ConnectionReset),
                    Fault::Err(ErrorKind::Other),
                ]);
                g.wfault = Some((at, f));
            }
            for m in msgs.iter().take(1 + r.below(3)) {
                if p.write(&Payload::genuine(m.clone())).await.is_ok() {
                    vio!("{k:?}: write over a broken transport reported success");
                }
            }
            let bytes = encode(&s, &pkts);
            s.n.lock().unwrap().push(&bytes);
            for (i, x) in pkts.iter().enumerate() {
                match p.read().await {
                    Ok(y) => ensure!(
                        y.contents() == x.contents && y.packet_type() == ptype(x.header),
                        "{k:?}: read {i} after writing failed returns something else than the peer sent"
                    ),
                    Err(e) => vio!("{k:?}: read {i} after writing failed: {}", err_class(&e)),
                }
            }
        }
        if split_late {
            if let Un::Ps(p) = p {
                drop(p.into_split());
            }
        } else {
            drop(p);
        }
        if !k.sync() {
            tokio::time::sleep(Duration::from_secs(2)).await;
        }
        Ok(())
    });
    res?;
    judge(&s, &want, want.len(), !receive, "around a failure of the other direction")?;
    c.eval();
    c.count("undivided connections failed in one direction", 1);
    c.sig(&[6, k as u64, how as u64, s.padding as u64, s.decoys as u64, want.len() as u64]);
    Ok(())
}

/// One task serves both directions of an undivided connection: it gives up waiting for the peer
/// whenever there is something to send.
fn undivided(c: &mut Case) -> CaseResult {
    let shaped_ = c.idx % 2 == 1;
    let k = if shaped_ { K::ShapedAsync } else { K::PlainAsync };
    let r = &mut c.rng;
    let (s, role, garbage, w) = start(k, r);
    let rt = shaped::runtime();
    let pkts = { let n = r.range(1, 20); packets(r, n) };
    let msgs = { let n = r.range(1, 20); messages(r, n) };
    let seed = r.u64();
    let want = msgs.clone();
    let s1 = s.clone();
    let res: Result<u64, Fail> = rt.block_on(async move {
        let s = s1;
        let mut r = Rng::new(seed);
        let p = Un::open(&s, role, garbage, w).await;
        let mut p = match p {
            Ok(p) => p,
            Err(e) => vio!("{k:?}: handshake: {}", err_class(&e)),
        };
        let bytes = encode(&s, &pkts);
        let (mut fed, mut got, mut sent, mut gave_up) = (0, 0, 0, 0u64);
        while got < pkts.len() || sent < msgs.len() {
            if fed < bytes.len() {
                let n = match r.below(4) {
                    0 => r.range(1, 3),
                    1 => r.range(1, 30),
                    _ => r.range(1, 2 * bytes.len() / pkts.len()),
                }
                .min(bytes.len() - fed);
                s.n.lock().unwrap().push(&bytes[fed..fed + n]);
                fed += n;
            }
            if got < pkts.len() {
                match tokio::time::timeout(Duration::from_millis(r.range(1, 40) as u64), p.read()).await {
                    Ok(Ok(x)) => {
                        ensure!(
                            x.contents() == pkts[got].contents && x.packet_type() == ptype(pkts[got].header),
                            "{k:?}: read {got} of an undivided connection returns something else than the peer sent"
                        );
                        got += 1;
                    }
                    Ok(Err(e)) => vio!("{k:?}: read {got} of an undivided connection fails: {}", err_class(&e)),
                    Err(_) => {
                        gave_up += 1;
                        ensure!(gave_up < 1_000_000, "{k:?}: reads of an undivided connection never complete");
                    }
                }
            }
            if sent < msgs.len() && r.coin() {
                let x = Payload::genuine(msgs[sent].clone());
                match tokio::time::timeout(Duration::from_secs(1000), p.write(&x)).await {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => vio!("{k:?}: write {sent} between reads fails: {}", err_class(&e)),
                    Err(_) => vio!("{k:?}: write {sent} between reads never completes"),
                }
                sent += 1;
            }
        }
        drop(p);
        tokio::time::sleep(Duration::from_secs(2)).await;
        Ok(gave_up)
    });
    let gave_up = res?;
    judge(&s, &want, want.len(), false, "between abandoned reads")?;
    c.eval();
    c.count("reads abandoned for a write", gave_up);
    c.sig(&[5, k as u64, gave_up, s.padding as u64, s.decoys as u64, want.len() as u64]);
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    Suite {
        id: "C20",
        level: "exploration",
        rule: "a case is one session (plain or shaped, blocking or asynchronous) with one direction stalled in the transport, waiting, failed or dropped while the other is used and judged against the reference peer; distinct by interface, kind of disturbance, strategy and amount of traffic",
        assumptions: vec![
            "on the blocking interfaces the undisturbed direction has 100 check intervals of the harness's own heartbeat, on the asynchronous ones 1000 virtual seconds",
        ],
        families: vec![
            sleepy("stalled_write", t(tier, 400, 6000), 1200, stalled_write),
            sleepy("stalled_read", t(tier, 400, 6000), 1200, stalled_read),
            sleepy("failed", t(tier, 1200, 20_000), 1200, failed),
            sleepy("failed_whole", t(tier, 800, 12_000), 1200, failed_whole),
            fam("undivided", t(tier, 600, 12_000), undivided),
            sleepy("dropped", t(tier, 400, 6000), 1200, dropped),
        ],
        require: vec![
            "sessions stalled in one direction",
            "sessions waiting in one direction",
            "failed receiving directions",
            "failed sending directions",
            "reads abandoned for a write",
            "undivided connections failed in one direction",
            "sessions with one half dropped",
            "shaped sessions with one half dropped",
        ],
    }
}
