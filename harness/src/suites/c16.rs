//! C16: shaped connections shut down cleanly.

use super::t;
use crate::net::{net, Fault, Seg, Shared, R};
use crate::peer::*;
use crate::run::{fam, sleepy, Case, CaseResult, Fail, Suite, Tier};
use crate::shaped::{self, unblock, RecRef};
use crate::util::Rng;
use crate::{ensure, vio};
use bip324::io::Payload;
use std::future::Future;
use std::io::ErrorKind;
use std::sync::mpsc;
use std::time::Duration;

/// Own heartbeats: a stalled machine stalls them as well.
fn beats<T>(n: u32, mut f: impl FnMut() -> Option<T>) -> Option<T> {
    for _ in 0..n * 10 {
        if let Some(x) = f() {
            return Some(x);
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    f()
}

const BOUND: u32 = 50;
/// On virtual time nothing but the code under test takes any.
const VBOUND: u64 = 10;

/// Run `f` elsewhere; a violation when it does not return within the bound.
fn returns<T: Send + 'static>(
    what: &str,
    n: u32,
    f: impl FnOnce() -> T + Send + 'static,
) -> Result<T, Fail> {
    let (tx, rx) = mpsc::channel();
    std::thread::Builder::new()
        .name("vh-drop".into())
        .spawn(move || {
            let r = crate::run::guarded(f);
            let _ = tx.send(r);
        })
        .map_err(|e| Fail::Inconclusive(format!("thread: {e}")))?;
    match beats(n, || rx.try_recv().ok()) {
        Some(r) => r,
        None => vio!("{what} did not return within {n} check intervals"),
    }
}

/// Drop by going out of scope, or because the owner panics.
fn let_go<T>(x: T, unwinding: bool) {
    if !unwinding {
        return drop(x);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let _x = x;
        // without the panic hook
        std::panic::resume_unwind(Box::new("owner"));
    }));
    assert!(r.is_err());
}

struct S {
    role: bip324::Role,
    padding: bool,
    decoys: bool,
    n: Shared,
    p: PeerRef,
    rec: RecRef,
    incoming: Vec<Pkt>,
}

fn start(r: &mut Rng) -> (S, shaped::RecW) {
    let role = ROLES[r.below(2)];
    let (padding, decoys) = *r.pick(&shaped::STRATEGIES);
    let mut cfg = PeerCfg::new(r, role);
    let incoming: Vec<Pkt> = (0..r.below(4))
        .map(|i| pkt(*r.pick(&[0u8, 0x80]), &shaped::message(r, i, 500)))
        .collect();
    cfg.session = incoming.clone();
    let n = net(r.u64());
    {
        let mut g = n.lock().unwrap();
        g.log = false;
        g.rseg = Seg::Random(300);
    }
    let p = attach(&n, cfg, None);
    let (rec, w) = shaped::rec(r.u64(), &n);
    (S { role, padding, decoys, n, p, rec, incoming }, w)
}

fn released(rec: &RecRef) -> bool {
    rec.0.lock().unwrap().dropped
}

/// New packets of the peer.
fn push(s: &S, pkts: &[Pkt]) {
    let mut v = Vec::new();
    {
        let mut p = s.p.lock().unwrap();
        let sess = p.session.as_mut().expect("session");
        for x in pkts {
            v.extend_from_slice(&sess.send.packet(x.header, &x.contents, &[]));
        }
    }
    s.n.lock().unwrap().push(&v);
}

fn same(i: usize, want: &Pkt, got: &Payload) -> CaseResult {
    ensure!(
        got.contents() == want.contents && got.packet_type() == ptype(want.header),
        "read {i} after the writer half was dropped returns other contents than the peer sent"
    );
    Ok(())
}

/// Everything of the closed connection; `done` writes succeeded, `want` were attempted.
fn judge_wire(s: &S, want: &[Vec<u8>], min: usize, faulty: bool) -> CaseResult {
    let sess = take_session(&s.p);
    let out = s.rec.0.lock().unwrap().out.clone();
    if faulty {
        return Ok(());
    }
    let w = match shaped::wire(&out, &sess) {
        Ok(w) => w,
        Err(e) => vio!("bytes of the closed connection do not parse: {e}"),
    };
    ensure!(
        w.leftover == 0,
        "the closed connection ends with {} bytes of a partial packet",
        w.leftover
    );
    shaped::check_genuine(&w, want, min)
}

type SyncConn = bip324_traffic::io::ShapedProtocol<R, shaped::RecW>;

fn open_sync(s: &S, w: shaped::RecW) -> Result<SyncConn, Fail> {
    match bip324_traffic::io::ShapedProtocol::new(
        MAGIC,
        s.role,
        shaped::config(s.padding, s.decoys),
        R(s.n.clone()),
        w,
    ) {
        Ok(c) => Ok(c),
        Err(e) => vio!("shaped handshake: {}", err_class(&e)),
    }
}

/// Blocking interface: drop at random points of a session's life.
fn threads(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let (s, w) = start(&mut r);
    {
        let mut g = s.rec.0.lock().unwrap();
        g.slow_pct = *r.pick(&[0usize, 0, 30]);
        g.delay = Duration::from_millis(*r.pick(&[1u64, 40, 150]));
        g.max_write = *r.pick(&[usize::MAX, usize::MAX, 400]);
    }
    let mut conn = open_sync(&s, w)?;
    let mut sent = Vec::new();
    let mut ok = 0;
    let idle = r.below(8) as u64 * 50 + r.below(50) as u64;
    let mut faulty = false;
    for i in 0..r.below(6) {
        let m = shaped::message(&mut r, i, 2000);
        if let Err(e) = conn.write(&Payload::genuine(m.clone())) {
            vio!("shaped write {i} fails: {}", err_class(&e));
        }
        sent.push(m);
        ok += 1;
        if r.coin() {
            std::thread::sleep(Duration::from_millis(r.below(150) as u64));
        }
    }
    std::thread::sleep(Duration::from_millis(idle));
    if r.chance(1, 4) {
        // the transport breaks; writes end with a result, then the connection is dropped
        faulty = true;
        {
            let mut g = s.rec.0.lock().unwrap();
            g.sticky = true;
            let k = g.writes;
            let f = if r.coin() { Fault::Zero } else { Fault::Err(ErrorKind::BrokenPipe) };
            g.wfault = Some((k, f));
        }
        if r.coin() {
            // the background activity may be the first to see it
            std::thread::sleep(Duration::from_millis(r.range(100, 1500) as u64));
        }
        let k = r.below(4);
        let (back, results) = returns("write over a broken transport", BOUND, move || {
            let rs: Vec<bool> = (0..k)
                .map(|i| conn.write(&Payload::genuine(vec![i as u8; 10])).is_ok())
                .collect();
            (conn, rs)
        })?;
        conn = back;
        ensure!(
            results.iter().all(|x| !x),
            "write over a permanently broken transport reported success"
        );
        c.count("writes answered over a broken transport", k as u64);
    }
    let split = r.coin();
    let unwinding = r.chance(1, 5);
    if unwinding {
        c.count("drops while the owner panics", 1);
    }
    let later: Vec<Pkt> = (0..r.below(4)).map(|i| pkt(0, &shaped::message(&mut r, i, 300))).collect();
    if split {
        let (mut rd, wr) = conn.into_split();
        let reader_first = r.chance(1, 4);
        if reader_first {
            drop(rd);
            ensure!(
                s.n.lock().unwrap().dropped_reader,
                "dropping the reader half keeps the transport's read half"
            );
            returns("dropping the writer half", BOUND, move || let_go(wr, unwinding))?;
        } else {
            returns("dropping the writer half", BOUND, move || let_go(wr, unwinding))?;
            if beats(BOUND, || released(&s.rec).then_some(())).is_none() {
                vio!("sync: transport still held {BOUND} check intervals after the writer half was dropped");
            }
            s.rec.0.lock().unwrap().closed = true;
            push(&s, &later);
            for (i, x) in s.incoming.iter().chain(&later).enumerate() {
                match rd.read() {
                    Ok(p) => same(i, x, &p)?,
                    Err(e) => vio!("read {i} after the writer half was dropped: {}", err_class(&e)),
                }
                c.count("reads after the writer half was dropped", 1);
            }
            ensure!(
                !s.n.lock().unwrap().dropped_reader,
                "the transport's read half is gone while the reader half lives"
            );
            drop(rd);
        }
    } else {
        returns("dropping the connection", BOUND, move || let_go(conn, unwinding))?;
    }
    if beats(BOUND, || (released(&s.rec) && s.n.lock().unwrap().dropped_reader).then_some(())).is_none() {
        let g = s.rec.0.lock().unwrap();
        vio!(
            "sync: transport not released {BOUND} check intervals after the drop (writer released {}, reader released {})",
            g.dropped,
            s.n.lock().unwrap().dropped_reader
        );
    }
    {
        let mut g = s.rec.0.lock().unwrap();
        ensure!(g.writes_after_drop == 0, "sync: {} writes after the drop", g.writes_after_drop);
        g.closed = true;
    }
    judge_wire(&s, &sent, ok, faulty)?;
    c.eval();
    c.count("connections dropped (sync)", 1);
    let len = s.rec.0.lock().unwrap().out.len() as u64;
    c.sig(&[1, s.padding as u64, s.decoys as u64, split as u64, faulty as u64, idle / 50, len]);
    c.sample(|| {
        format!(
            "sync: padding {} decoys {} split {split} idle {idle} ms, broken transport {faulty}: {} writes, then dropped",
            s.padding,
            s.decoys,
            sent.len()
        )
    });
    Ok(())
}

/// Blocking interface: drop while the background activity is inside a write of the transport.
fn threads_blocked(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let (mut s, w) = start(&mut r);
    s.decoys = true;
    let conn = open_sync(&s, w)?;
    {
        let mut g = s.rec.0.lock().unwrap();
        g.blocked = true;
        g.max_write = *r.pick(&[usize::MAX, 100]);
    }
    if beats(1500, || (s.rec.0.lock().unwrap().blocked_calls > 0).then_some(())).is_none() {
        unblock(&s.rec);
        return Err(Fail::Inconclusive("no background decoy within 1500 intervals".into()));
    }
    let split = r.coin();
    let later = r.below(250) as u64;
    let rec = s.rec.clone();
    let fault = r.chance(1, 3);
    std::thread::Builder::new()
        .name("vh-unblock".into())
        .spawn(move || {
            std::thread::sleep(Duration::from_millis(later));
            if fault {
                let mut g = rec.0.lock().unwrap();
                g.sticky = true;
                g.wfault = Some((g.writes, Fault::Err(ErrorKind::ConnectionReset)));
            }
            unblock(&rec);
        })
        .map_err(|e| Fail::Inconclusive(format!("thread: {e}")))?;
    if split {
        let (_rd, wr) = conn.into_split();
        returns("dropping the writer half", BOUND, move || drop(wr))?;
    } else {
        returns("dropping the connection", BOUND, move || drop(conn))?;
    }
    if beats(BOUND, || released(&s.rec).then_some(())).is_none() {
        vio!("sync: transport not released {BOUND} check intervals after a drop during a decoy");
    }
    judge_wire(&s, &[], 0, fault)?;
    c.eval();
    c.count("drops during a write of the transport", 1);
    c.sig(&[2, split as u64, later, fault as u64, s.padding as u64]);
    Ok(())
}

/// Handshake failures release the transport as well.
fn handshake_fails(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let (s, w) = start(&mut r);
    let is_async = c.idx % 2 == 0;
    let k = r.below(4) as u64;
    if r.coin() {
        let mut g = s.rec.0.lock().unwrap();
        g.sticky = true;
        g.wfault = Some((k.min(1), Fault::Err(ErrorKind::ConnectionReset)));
    } else {
        let mut g = s.n.lock().unwrap();
        g.sticky = true;
        g.rfault = Some((k, Fault::Err(ErrorKind::ConnectionReset)));
    }
    let failed = if is_async {
        let rt = shaped::runtime();
        let (n, cfg, role) = (s.n.clone(), shaped::config(s.padding, s.decoys), s.role);
        let rec = s.rec.clone();
        rt.block_on(async move {
            let res =
                bip324_traffic::futures::ShapedProtocol::new(MAGIC, role, cfg, R(n), w).await;
            let failed = res.is_err();
            drop(res);
            for _ in 0..BOUND {
                if released(&rec) {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(100)).await;
            }
            failed
        })
    } else {
        match bip324_traffic::io::ShapedProtocol::new(
            MAGIC,
            s.role,
            shaped::config(s.padding, s.decoys),
            R(s.n.clone()),
            w,
        ) {
            Ok(conn) => {
                returns("dropping the connection", BOUND, move || drop(conn))?;
                false
            }
            Err(_) => true,
        }
    };
    if beats(BOUND, || (released(&s.rec) && s.n.lock().unwrap().dropped_reader).then_some(())).is_none() {
        vio!("transport not released after a failed handshake (async {is_async})");
    }
    c.eval();
    if failed {
        c.count("failed handshakes which released the transport", 1);
    }
    c.sig(&[3, is_async as u64, k, failed as u64, s.padding as u64, s.decoys as u64]);
    Ok(())
}

/// Async interface on virtual time: drop at random points, writes accepted before the drop.
fn tasks(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let (s, w) = start(&mut r);
    s.n.lock().unwrap().starve_pending = true;
    let mode = r.below(5);
    let delay_ms = *r.pick(&[1u64, 30, 120, 1000]);
    let rt = shaped::runtime();
    let seed = r.u64();
    let s = std::sync::Arc::new(s);
    let s2 = s.clone();
    struct Out {
        sent: Vec<Vec<u8>>,
        accepted: usize,
        reads: u64,
        answered: u64,
        idle: u64,
        how: usize,
        faulty: bool,
    }
    let res: Result<Out, Fail> = rt.block_on(async move {
        let s = s2;
        let mut r = Rng::new(seed);
        {
            let mut g = s.rec.0.lock().unwrap();
            g.virt = Some(tokio::time::Instant::now());
            g.delay = Duration::from_millis(delay_ms);
            g.slow_pct = *r.pick(&[0usize, 0, 40, 100]);
            g.max_write = *r.pick(&[usize::MAX, usize::MAX, 300]);
        }
        let conn = bip324_traffic::futures::ShapedProtocol::new(
            MAGIC,
            s.role,
            shaped::config(s.padding, s.decoys),
            R(s.n.clone()),
            w,
        )
        .await;
        let conn = match conn {
            Ok(c) => c,
            Err(e) => vio!("shaped handshake: {}", err_class(&e)),
        };
        let (mut rd, mut wr) = conn.into_split();
        let mut o = Out {
            sent: Vec::new(),
            accepted: 0,
            reads: 0,
            answered: 0,
            idle: 0,
            how: 0,
            faulty: false,
        };
        for i in 0..r.below(6) {
            let m = shaped::message(&mut r, i, 1500);
            if let Err(e) = wr.write(&Payload::genuine(m.clone())).await {
                vio!("shaped write {i} fails: {}", err_class(&e));
            }
            o.sent.push(m);
        }
        if r.chance(2, 3) {
            o.idle = r.below(3000) as u64;
            tokio::time::sleep(Duration::from_millis(o.idle)).await;
        }
        let mut background_blocked = false;
        match mode {
            1 => {
                // writes which were accepted but whose results nobody waits for
                let base = o.sent.len();
                for i in 0..r.range(1, 8) {
                    let m = shaped::message(&mut r, base + i, 1500);
                    {
                        let p = Payload::genuine(m.clone());
                        let mut f = Box::pin(wr.write(&p));
                        let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
                        if let std::task::Poll::Ready(Err(e)) = f.as_mut().poll(&mut cx) {
                            vio!("shaped write fails: {}", err_class(&e));
                        }
                    }
                    o.sent.push(m);
                    o.accepted += 1;
                    if r.chance(1, 3) {
                        let ms = r.below(200) as u64;
                        tokio::time::sleep(Duration::from_millis(ms)).await;
                    }
                }
            }
            2 => {
                // the transport breaks for good
                o.faulty = true;
                {
                    let mut g = s.rec.0.lock().unwrap();
                    g.sticky = true;
                    let f = if r.coin() { Fault::Zero } else { Fault::Err(ErrorKind::BrokenPipe) };
                    if r.coin() || f == Fault::Zero {
                        g.wfault = Some((g.writes, f));
                    } else {
                        g.ffault = Some((g.flushes, f));
                    }
                }
                if r.coin() {
                    let ms = r.below(10_000) as u64;
                    tokio::time::sleep(Duration::from_millis(ms)).await;
                }
                for i in 0..r.range(1, 6) {
                    let p = Payload::genuine(vec![i as u8; 20]);
                    match tokio::time::timeout(Duration::from_secs(1000), wr.write(&p)).await {
                        Ok(Ok(())) => vio!("write over a permanently broken transport reported success"),
                        Ok(Err(_)) => o.answered += 1,
                        Err(_) => vio!("write over a broken transport has no result after 10000 check intervals"),
                    }
                    if r.coin() {
                        let ms = r.below(2000) as u64;
                        tokio::time::sleep(Duration::from_millis(ms)).await;
                    }
                }
            }
            3 if s.decoys => {
                // dropped while a decoy is inside a write of the transport
                s.rec.0.lock().unwrap().blocked = true;
                for i in 0.. {
                    if s.rec.0.lock().unwrap().blocked_calls > 0 {
                        background_blocked = true;
                        break;
                    }
                    if i > 20_000 {
                        return Err(Fail::Inconclusive("no background decoy within 20000 intervals".into()));
                    }
                    tokio::time::sleep(Duration::from_millis(100)).await;
                }
            }
            _ => {}
        }
        o.how = r.below(3);
        let unwinding = r.chance(1, 5);
        let later: Vec<Pkt> = (0..r.range(1, 4)).map(|i| pkt(0, &shaped::message(&mut r, i, 300))).collect();
        let mut rd = match o.how {
            0 => {
                drop(rd);
                let_go(wr, unwinding);
                None
            }
            1 => {
                let_go(wr, unwinding);
                Some(rd)
            }
            _ => {
                // a reader waits on another task meanwhile
                let s3 = s.clone();
                let l2 = later.clone();
                let h = tokio::spawn(async move {
                    for (i, x) in s3.incoming.iter().chain(&l2).enumerate() {
                        match rd.read().await {
                            Ok(p) => same(i, x, &p)?,
                            Err(e) => vio!("read {i} while the writer half is dropped: {}", err_class(&e)),
                        }
                    }
                    Ok(())
                });
                tokio::time::sleep(Duration::from_millis(r.below(50) as u64)).await;
                drop(wr);
                tokio::time::sleep(Duration::from_millis(r.below(300) as u64)).await;
                push(&s, &later);
                match tokio::time::timeout(Duration::from_secs(1000), h).await {
                    Ok(Ok(x)) => x?,
                    Ok(Err(e)) => vio!("reader task: {e}"),
                    Err(_) => vio!("reader half does not deliver after the writer half was dropped"),
                }
                o.reads += (s.incoming.len() + later.len()) as u64;
                None
            }
        };
        if background_blocked {
            tokio::time::sleep(Duration::from_millis(r.below(300) as u64)).await;
            unblock(&s.rec);
        }
        // Released within a few intervals of the last call of the transport (with its own delay).
        let mut quiet = 0;
        let mut seen = 0;
        let mut total = 0u64;
        let slack = VBOUND + delay_ms / 100;
        let work = (o.accepted as u64 + 1) * 3 * 12 * (delay_ms / 100 + 1) * 3 + 200;
        while !released(&s.rec) {
            tokio::time::sleep(Duration::from_millis(100)).await;
            let k = s.rec.0.lock().unwrap().calls.len();
            quiet = if k == seen { quiet + 1 } else { 0 };
            seen = k;
            total += 1;
            if quiet > slack || total > work {
                vio!(
                    "async: transport still held {total} check intervals after the {} was dropped (last use {quiet} intervals ago, mode {mode})",
                    if o.how == 0 { "connection" } else { "writer half" }
                );
            }
        }
        s.rec.0.lock().unwrap().closed = true;
        if let Some(rd) = rd.as_mut() {
            push(&s, &later);
            for (i, x) in s.incoming.iter().chain(&later).enumerate() {
                match tokio::time::timeout(Duration::from_secs(1000), rd.read()).await {
                    Ok(Ok(p)) => same(i, x, &p)?,
                    Ok(Err(e)) => vio!("read {i} after the writer half was dropped: {}", err_class(&e)),
                    Err(_) => vio!("read {i} after the writer half was dropped never completes"),
                }
                o.reads += 1;
            }
        }
        drop(rd);
        ensure!(s.n.lock().unwrap().dropped_reader, "async: read half of the transport not released");
        Ok(o)
    });
    let o = res?;
    ensure!(
        s.rec.0.lock().unwrap().writes_after_drop == 0,
        "async: transport used after it was released"
    );
    // accepted writes were carried out, although nobody waited for them
    judge_wire(&s, &o.sent, o.sent.len(), o.faulty)?;
    c.eval();
    c.count("connections dropped (async)", 1);
    c.count("accepted writes carried out after the drop", o.accepted as u64);
    c.count("reads after the writer half was dropped", o.reads);
    c.count("writes answered over a broken transport", o.answered);
    if mode == 3 && s.decoys {
        c.count("drops during a write of the transport", 1);
    }
    let len = s.rec.0.lock().unwrap().out.len() as u64;
    c.sig(&[4, mode as u64, o.how as u64, s.padding as u64, s.decoys as u64, delay_ms, len]);
    c.sample(|| {
        format!(
            "async: mode {mode}, padding {} decoys {}, idle {} ms, {} writes ({} accepted and not waited for), dropped ({})",
            s.padding, s.decoys, o.idle, o.sent.len(), o.accepted, o.how
        )
    });
    Ok(())
}

/// The background task is gone (its runtime ended): writes still complete with a result.
fn runtime_gone(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let (s, w) = start(&mut r);
    s.n.lock().unwrap().starve_pending = true;
    let rt = shaped::runtime();
    let (n, role, cfg) = (s.n.clone(), s.role, shaped::config(s.padding, s.decoys));
    let idle = r.below(1500) as u64;
    let conn = rt.block_on(async move {
        let c = bip324_traffic::futures::ShapedProtocol::new(MAGIC, role, cfg, R(n), w).await;
        tokio::time::sleep(Duration::from_millis(idle)).await;
        c
    });
    let conn = match conn {
        Ok(c) => c,
        Err(e) => vio!("shaped handshake: {}", err_class(&e)),
    };
    let (mut rd, mut wr) = conn.into_split();
    let during = r.coin();
    if during {
        // one write is under way when the runtime goes
        s.rec.0.lock().unwrap().blocked = true;
        let p = Payload::genuine(vec![1; 30]);
        let (rt2, s2) = (shaped::runtime(), &s);
        let res = {
            let mut f = Box::pin(wr.write(&p));
            rt.block_on(async {
                let _ = tokio::time::timeout(Duration::from_millis(50), f.as_mut()).await;
            });
            drop(rt);
            unblock(&s2.rec);
            rt2.block_on(async { tokio::time::timeout(Duration::from_secs(1000), f).await })
        };
        match res {
            Ok(Ok(())) => vio!("write reported success although its task was gone"),
            Ok(Err(_)) => {}
            Err(_) => vio!("write whose background task ended never completes"),
        }
    } else {
        drop(rt);
    }
    let rt2 = shaped::runtime();
    let k = r.range(1, 4);
    let incoming = s.incoming.clone();
    let answered: Result<u64, Fail> = rt2.block_on(async {
        for i in 0..k {
            let p = Payload::genuine(vec![i as u8; 20]);
            match tokio::time::timeout(Duration::from_secs(1000), wr.write(&p)).await {
                Ok(Ok(())) => vio!("write reported success although the background task is gone"),
                Ok(Err(_)) => {}
                Err(_) => vio!("write after the background task ended never completes"),
            }
        }
        for (i, x) in incoming.iter().enumerate() {
            match tokio::time::timeout(Duration::from_secs(1000), rd.read()).await {
                Ok(Ok(p)) => same(i, x, &p)?,
                Ok(Err(e)) => vio!("read {i} after the background task ended: {}", err_class(&e)),
                Err(_) => vio!("read {i} after the background task ended never completes"),
            }
        }
        Ok(k as u64)
    });
    c.count("writes answered without background task", answered?);
    drop(wr);
    drop(rd);
    ensure!(
        released(&s.rec) && s.n.lock().unwrap().dropped_reader,
        "transport still held after runtime and connection are gone"
    );
    c.eval();
    c.sig(&[5, idle / 100, during as u64, s.padding as u64, s.decoys as u64, k as u64]);
    Ok(())
}

/// The peer at the other end of a real socket sees the connection close.
fn sockets(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let (a, b) = std::os::unix::net::UnixStream::pair()
        .map_err(|e| Fail::Inconclusive(format!("socketpair: {e}")))?;
    let role = ROLES[r.below(2)];
    let (padding, decoys) = *r.pick(&shaped::STRATEGIES);
    let k = r.below(5);
    let msgs: Vec<Vec<u8>> = (0..k).map(|i| shaped::message(&mut r, i, 3000)).collect();
    let want = msgs.clone();
    let (tx, rx) = mpsc::channel::<CaseResult>();
    let clone = |s: &std::os::unix::net::UnixStream| {
        s.try_clone().map_err(|e| Fail::Inconclusive(format!("socket: {e}")))
    };
    let (ra, rb) = (clone(&a)?, clone(&b)?);
    std::thread::Builder::new()
        .name("vh-remote".into())
        .spawn(move || {
            let f = move || -> CaseResult {
                let mut p = match bip324::io::Protocol::new(MAGIC, other(role), None, None, rb, b) {
                    Ok(p) => p,
                    Err(e) => return Err(Fail::Inconclusive(format!("remote: {}", err_class(&e)))),
                };
                let mut got = Vec::new();
                loop {
                    match p.read() {
                        Ok(x) if x.packet_type() == bip324::PacketType::Decoy => {}
                        Ok(x) => got.push(x.contents().to_vec()),
                        Err(e) => {
                            ensure!(
                                shaped::kind_of(&e) == Some(ErrorKind::UnexpectedEof),
                                "remote of a closed connection gets {}",
                                err_class(&e)
                            );
                            break;
                        }
                    }
                }
                ensure!(got == want, "remote got {} messages, {} were written", got.len(), want.len());
                Ok(())
            };
            let _ = tx.send(crate::run::guarded(f).and_then(|x| x));
        })
        .map_err(|e| Fail::Inconclusive(format!("thread: {e}")))?;
    let conn = bip324_traffic::io::ShapedProtocol::new(
        MAGIC,
        role,
        shaped::config(padding, decoys),
        ra,
        a,
    );
    let mut conn = match conn {
        Ok(c) => c,
        Err(e) => vio!("shaped handshake: {}", err_class(&e)),
    };
    for m in &msgs {
        if let Err(e) = conn.write(&Payload::genuine(m.clone())) {
            vio!("shaped write fails: {}", err_class(&e));
        }
        if r.coin() {
            std::thread::sleep(Duration::from_millis(r.below(250) as u64));
        }
    }
    std::thread::sleep(Duration::from_millis(r.below(250) as u64));
    returns("dropping the connection", BOUND, move || drop(conn))?;
    match beats(BOUND, || rx.try_recv().ok()) {
        Some(x) => x?,
        None => vio!("remote does not see the connection close within {BOUND} check intervals"),
    }
    c.eval();
    c.count("remotes which saw the close", 1);
    c.sig(&[6, role_init(role) as u64, padding as u64, decoys as u64, k as u64, r.u64() % 16]);
    Ok(())
}

/// The reader half stays busy while the writer half is dropped: it does not keep the writer alive.
fn busy_threads(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let (s, w) = start(&mut r);
    let s = std::sync::Arc::new(s);
    let conn = open_sync(&s, w)?;
    let (mut rd, mut wr) = conn.into_split();
    let sent: Vec<Vec<u8>> = (0..r.below(4)).map(|i| shaped::message(&mut r, i, 2000)).collect();
    for m in &sent {
        if let Err(e) = wr.write(&Payload::genuine(m.clone())) {
            vio!("shaped write fails: {}", err_class(&e));
        }
    }
    for x in s.incoming.iter().enumerate() {
        match rd.read() {
            Ok(p) => same(x.0, x.1, &p)?,
            Err(e) => vio!("read fails: {}", err_class(&e)),
        }
    }
    let pace = *r.pick(&[0u64, 1, 5, 20, 60]);
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let (stop2, s2) = (stop.clone(), s.clone());
    let seed = r.u64();
    let (tx, rx) = mpsc::channel();
    std::thread::Builder::new()
        .name("vh-busy".into())
        .spawn(move || {
            let mut r = Rng::new(seed);
            let f = move || -> Result<u64, Fail> {
                let mut k = 0u64;
                while !stop2.load(std::sync::atomic::Ordering::SeqCst) {
                    let x = pkt(*r.pick(&[0u8, 0, 0x80]), &shaped::message(&mut r, k as usize, 400));
                    push(&s2, std::slice::from_ref(&x));
                    match rd.read() {
                        Ok(p) => same(k as usize, &x, &p)?,
                        Err(e) => vio!("read of a busy reader half: {}", err_class(&e)),
                    }
                    k += 1;
                    if pace > 0 {
                        std::thread::sleep(Duration::from_millis(pace));
                    } else if k % 64 == 0 {
                        std::thread::sleep(Duration::from_millis(1));
                    }
                }
                Ok(k)
            };
            let _ = tx.send(crate::run::guarded(f).and_then(|x| x));
        })
        .map_err(|e| Fail::Inconclusive(format!("thread: {e}")))?;
    let idle = r.below(400) as u64;
    std::thread::sleep(Duration::from_millis(idle));
    let gone = returns("dropping the writer half of a busy connection", BOUND, move || drop(wr));
    let gone = gone.and_then(|()| match beats(BOUND, || released(&s.rec).then_some(())) {
        Some(()) => Ok(()),
        None => vio!("sync: transport still held {BOUND} check intervals after the writer half was dropped, the reader half is busy"),
    });
    s.rec.0.lock().unwrap().closed = true;
    std::thread::sleep(Duration::from_millis(r.below(150) as u64));
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    gone?;
    let k = match beats(BOUND, || rx.try_recv().ok()) {
        Some(k) => k?,
        None => vio!("busy reader half does not return"),
    };
    ensure!(
        s.rec.0.lock().unwrap().writes_after_drop == 0,
        "sync: writes after the writer half was dropped"
    );
    judge_wire(&s, &sent, sent.len(), false)?;
    c.eval();
    c.count("reads around the drop of the writer half", k);
    c.sig(&[8, s.padding as u64, s.decoys as u64, pace, idle / 50, sent.len() as u64]);
    Ok(())
}

/// The same for the async interface, on virtual time.
fn busy_tasks(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let (s, w) = start(&mut r);
    s.n.lock().unwrap().starve_pending = true;
    let s = std::sync::Arc::new(s);
    let s2 = s.clone();
    let rt = shaped::runtime();
    let mut r2 = Rng::new(r.u64());
    let sent: Vec<Vec<u8>> = (0..r.below(4)).map(|i| shaped::message(&mut r, i, 2000)).collect();
    let want = sent.clone();
    let pace = *r.pick(&[1u64, 7, 33, 99, 100, 101, 350]);
    let idle = r.below(2000) as u64;
    let reads: Result<u64, Fail> = rt.block_on(async move {
        let s = s2;
        s.rec.0.lock().unwrap().virt = Some(tokio::time::Instant::now());
        let conn = bip324_traffic::futures::ShapedProtocol::new(
            MAGIC,
            s.role,
            shaped::config(s.padding, s.decoys),
            R(s.n.clone()),
            w,
        )
        .await;
        let conn = match conn {
            Ok(c) => c,
            Err(e) => vio!("shaped handshake: {}", err_class(&e)),
        };
        let (mut rd, mut wr) = conn.into_split();
        for m in &sent {
            if let Err(e) = wr.write(&Payload::genuine(m.clone())).await {
                vio!("shaped write fails: {}", err_class(&e));
            }
        }
        for (i, x) in s.incoming.iter().enumerate() {
            match rd.read().await {
                Ok(p) => same(i, x, &p)?,
                Err(e) => vio!("read {i}: {}", err_class(&e)),
            }
        }
        let end = tokio::time::Instant::now() + Duration::from_millis(idle);
        let mut k = 0u64;
        let mut wr = Some(wr);
        let mut after = 0u64;
        loop {
            let x = pkt(*r2.pick(&[0u8, 0, 0x80]), &shaped::message(&mut r2, k as usize, 400));
            push(&s, std::slice::from_ref(&x));
            match rd.read().await {
                Ok(p) => same(k as usize, &x, &p)?,
                Err(e) => vio!("read of a busy reader half: {}", err_class(&e)),
            }
            k += 1;
            tokio::time::sleep(Duration::from_millis(pace)).await;
            if wr.is_some() && tokio::time::Instant::now() >= end {
                wr = None;
            } else if wr.is_none() {
                after += 1;
                if after * pace >= 100 * VBOUND {
                    vio!("async: transport still held {VBOUND} check intervals after the writer half was dropped, the reader half is busy");
                }
                if released(&s.rec) {
                    s.rec.0.lock().unwrap().closed = true;
                    break;
                }
            }
        }
        tokio::time::sleep(Duration::from_secs(2)).await;
        Ok(k)
    });
    let reads = reads?;
    ensure!(
        s.rec.0.lock().unwrap().writes_after_drop == 0,
        "async: writes after the transport was released"
    );
    judge_wire(&s, &want, want.len(), false)?;
    c.eval();
    c.count("reads around the drop of the writer half", reads);
    c.sig(&[9, s.padding as u64, s.decoys as u64, pace, idle / 50, want.len() as u64]);
    Ok(())
}

/// Many connections on one multi-threaded runtime, dropped while others work.
fn crowd(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(3)
        .thread_name("vh-tokio")
        .enable_time()
        .build()
        .map_err(|e| Fail::Inconclusive(format!("runtime: {e}")))?;
    let k = 24;
    let seeds: Vec<u64> = (0..k).map(|_| r.u64()).collect();
    let res: CaseResult = rt.block_on(async move {
        let mut hs = Vec::new();
        for seed in seeds {
            hs.push(tokio::spawn(async move {
                let mut r = Rng::new(seed);
                let (s, w) = start(&mut r);
                s.n.lock().unwrap().starve_pending = true;
                let conn = bip324_traffic::futures::ShapedProtocol::new(
                    MAGIC,
                    s.role,
                    shaped::config(s.padding, s.decoys),
                    R(s.n.clone()),
                    w,
                )
                .await;
                let mut conn = match conn {
                    Ok(c) => c,
                    Err(e) => vio!("shaped handshake: {}", err_class(&e)),
                };
                let mut sent = Vec::new();
                for i in 0..r.below(4) {
                    let m = shaped::message(&mut r, i, 500);
                    if let Err(e) = conn.write(&Payload::genuine(m.clone())).await {
                        vio!("shaped write {i} fails: {}", err_class(&e));
                    }
                    sent.push(m);
                    let ms = r.below(120) as u64;
                    tokio::time::sleep(Duration::from_millis(ms)).await;
                }
                drop(conn);
                for _ in 0..BOUND {
                    if released(&s.rec) {
                        break;
                    }
                    tokio::time::sleep(Duration::from_millis(100)).await;
                }
                ensure!(
                    released(&s.rec),
                    "async, multi-threaded: transport still held {BOUND} check intervals after the drop"
                );
                judge_wire(&s, &sent, sent.len(), false)
            }));
        }
        for h in hs {
            match h.await {
                Ok(x) => x?,
                Err(e) => vio!("task of a shaped connection: {e}"),
            }
        }
        Ok(())
    });
    res?;
    c.evals(k);
    c.count("connections dropped (async, multi-threaded)", k);
    c.sig(&[7, c.idx]);
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    Suite {
        id: "C16",
        level: "exploration",
        rule: "a case is one shaped connection dropped at one point of its life, with the release of its transport, the writes after the drop and the completeness of accepted writes judged; distinct by interface, kind of end, strategy, timing class and stream length",
        assumptions: vec![
            "the bound is 100 check intervals of the harness's own heartbeat (blocking interface) or 50 intervals of tokio's paused clock after the transport's last use",
            "every call of the transport returns eventually; a drop may wait for the call in progress",
            "a write counts as accepted once its future was polled",
        ],
        families: vec![
            sleepy("threads", t(tier, 256, 3000), 1200, threads),
            sleepy("threads_blocked", t(tier, 64, 600), 2500, threads_blocked),
            fam("handshake_fails", t(tier, 200, 2000), handshake_fails),
            fam("tasks", t(tier, 3000, 60_000), tasks),
            fam("runtime_gone", t(tier, 300, 5000), runtime_gone),
            sleepy("busy_threads", t(tier, 96, 1200), 1500, busy_threads),
            fam("busy_tasks", t(tier, 400, 8000), busy_tasks),
            sleepy("sockets", t(tier, 64, 800), 1200, sockets),
            sleepy("crowd", t(tier, 8, 60), 1200, crowd),
        ],
        require: vec![
            "connections dropped (sync)",
            "connections dropped (async)",
            "accepted writes carried out after the drop",
            "reads after the writer half was dropped",
            "writes answered over a broken transport",
            "writes answered without background task",
            "drops during a write of the transport",
            "reads around the drop of the writer half",
            "remotes which saw the close",
        ],
    }
}
