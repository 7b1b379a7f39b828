//! C13: success is reported only for fully written and flushed data.

use super::t;
use crate::net::{net, Fault, Net, Seg, Shared, R};
use crate::peer::*;
use crate::run::{fam, sleepy, Case, CaseResult, Fail, Suite, Tier};
use crate::shaped::{self, RecRef};
use crate::util::{hash_str, Rng};
use crate::{ensure, vio};
use bip324::io::{Payload, ProtocolError};
use std::io::ErrorKind;
use std::time::Duration;

const KINDS_OF_ERR: [ErrorKind; 8] = [
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::PermissionDenied,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidData,
];
/// Kinds nothing in the code names.
const MORE_KINDS: [ErrorKind; 14] = [
    ErrorKind::NotFound,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::AlreadyExists,
    ErrorKind::InvalidInput,
    ErrorKind::WriteZero,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
];
fn any_kind(r: &mut Rng) -> ErrorKind {
    if r.chance(2, 3) {
        *r.pick(&KINDS_OF_ERR)
    } else {
        *r.pick(&MORE_KINDS)
    }
}
const EOFS: [ErrorKind; 3] = [
    ErrorKind::UnexpectedEof,
    ErrorKind::ConnectionAborted,
    ErrorKind::ConnectionReset,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Which {
    Read,
    Write,
    Flush,
}

#[derive(Clone)]
struct Scenario {
    kind: Kind,
    role: bip324::Role,
    cfg: PeerCfg,
    garbage: Option<Vec<u8>>,
    decoys: OptDecoys,
    writes: Vec<Pkt>,
    /// true: write next, false: read next.
    order: Vec<bool>,
    rseg: Seg,
    wseg: Seg,
    pending: usize,
    interrupt: usize,
    buffered: bool,
    seed: u64,
}

fn scenario(r: &mut Rng, kind: Kind, small: bool) -> Scenario {
    let role = ROLES[r.below(2)];
    let mut cfg = PeerCfg::new(r, role);
    let n = *r.pick(&[0usize, 5, 40, 260]);
    cfg.garbage = r.bytes(n);
    for _ in 0..r.below(2) {
        let n = r.below(30);
        let x = r.bytes(n);
        cfg.handshake.insert(0, pkt(0x80, &x));
    }
    let mut writes = Vec::new();
    for _ in 0..r.range(1, 4) {
        let n = if small { r.below(60) } else { r.small_size() };
        let h = *r.pick(&[0u8, 0, 0x80]);
        writes.push(pkt(h, &r.content(n)));
    }
    for _ in 0..r.range(1, 4) {
        let n = if small { r.below(60) } else { r.small_size() };
        let h = *r.pick(&[0u8, 0, 0x80]);
        cfg.session.push(pkt(h, &r.content(n)));
    }
    let mut order: Vec<bool> = writes
        .iter()
        .map(|_| true)
        .chain(cfg.session.iter().map(|_| false))
        .collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i + 1));
    }
    let seg = |r: &mut Rng| match r.below(5) {
        0 => Seg::All,
        1 => Seg::Fixed(r.range(1, 3)),
        2 => Seg::Fixed(r.range(4, 40)),
        3 => Seg::Random(9),
        _ => Seg::Random(100),
    };
    let gl = r.below(20);
    Scenario {
        kind,
        role,
        cfg,
        garbage: if r.coin() { None } else { Some(r.bytes(gl)) },
        decoys: if r.coin() { None } else { Some(vec![r.bytes(gl)]) },
        writes,
        order,
        rseg: seg(r),
        wseg: seg(r),
        pending: if kind == Kind::Async { *r.pick(&[0usize, 30, 100]) } else { 0 },
        interrupt: if kind == Kind::Sync { *r.pick(&[0usize, 0, 40]) } else { 0 },
        buffered: r.coin(),
        seed: r.u64(),
    }
}

fn prepare(s: &Scenario) -> Shared {
    let n = net(s.seed);
    {
        let mut g = n.lock().unwrap();
        g.log = false;
        g.rseg = s.rseg.clone();
        g.wseg = s.wseg.clone();
        g.pending = s.pending;
        g.interrupt = s.interrupt;
        g.buffered_until_flush = s.buffered;
    }
    n
}

fn ops(n: &Net, w: Which) -> u64 {
    match w {
        Which::Read => n.reads,
        Which::Write => n.writes,
        Which::Flush => n.flushes,
    }
}

/// What must be true whenever an API call succeeded.
fn all_sent(n: &Net, p: &PeerRef, s: &Scenario, written: usize, what: &str) -> CaseResult {
    ensure!(
        n.flushed == n.out.len(),
        "{what} reported success with {} of {} bytes flushed",
        n.flushed,
        n.out.len()
    );
    let sess = match &p.lock().unwrap().session {
        Some(x) => x.clone(),
        None => vio!("{what} reported success before the key was visible to the remote"),
    };
    let sent = match parse_sent(&n.out, &sess) {
        Ok(x) => x,
        Err(e) => vio!("{what} reported success but the bytes accepted by the transport do not parse: {e}"),
    };
    let hs = s.decoys.as_ref().map_or(0, |d| d.len()) + 1;
    ensure!(
        sent.leftover == 0 && sent.packets.len() == hs + written,
        "{what} reported success but the transport accepted {} of {} packets ({} bytes of a partial one)",
        sent.packets.len(),
        hs + written,
        sent.leftover
    );
    ensure!(
        sent.garbage == s.garbage.clone().unwrap_or_default(),
        "{what}: garbage on the wire differs"
    );
    for (k, x) in sent.packets[hs..].iter().zip(&s.writes) {
        ensure!(
            k.contents == x.contents && k.header & 0x80 == x.header & 0x80,
            "{what} reported success but another packet was accepted by the transport"
        );
    }
    Ok(())
}

/// Run the scenario; returns false when the fault did not fire.
fn run(s: &Scenario, fault: Option<(Which, u64, Fault)>, sticky: bool) -> Result<(bool, [u64; 3]), Fail> {
    let n = prepare(s);
    if let Some((w, k, f)) = fault {
        let mut g = n.lock().unwrap();
        g.sticky = sticky;
        match w {
            Which::Read => g.rfault = Some((k, f)),
            Which::Write => g.wfault = Some((k, f)),
            Which::Flush => g.ffault = Some((k, f)),
        }
    }
    let p = attach(&n, s.cfg.clone(), None);
    // after each call: did the fault fire during it, and is the result right?
    let judge = |before: u64, res: Result<(), &ProtocolError>, what: &str| -> Result<bool, Fail> {
        let (w, k, f) = match fault {
            None => {
                if let Err(e) = res {
                    return Err(Fail::Violation(format!("{what} over a working transport fails: {}", err_class(e))));
                }
                return Ok(false);
            }
            Some(x) => x,
        };
        let after = ops(&n.lock().unwrap(), w);
        let fired = before <= k && after > k;
        match (fired, res) {
            (false, Ok(())) => Ok(false),
            // an interrupted operation may be retried, what it had to do is judged after the call
            (true, Ok(())) if f == Fault::Err(ErrorKind::Interrupted) => Ok(false),
            (false, Err(e)) => Err(Fail::Violation(format!(
                "{what} fails with {} although the transport worked",
                err_class(e)
            ))),
            (true, Ok(())) => Err(Fail::Violation(format!(
                "{:?} {what} reported success although {w:?} operation {k} ended with {f:?}",
                s.kind
            ))),
            (true, Err(e)) => {
                let kind = shaped::kind_of(e);
                let ok = match (f, w) {
                    (Fault::Err(x), _) => kind == Some(x),
                    (Fault::Zero, Which::Write) => kind == Some(ErrorKind::WriteZero),
                    (Fault::Zero, _) => kind.map_or(false, |x| EOFS.contains(&x)),
                };
                if ok {
                    Ok(true)
                } else {
                    Err(Fail::Violation(format!(
                        "{:?} {what}: {w:?} operation {k} ended with {f:?} but is reported as {}",
                        s.kind,
                        err_class(e)
                    )))
                }
            }
        }
    };
    let totals = |n: &Shared| {
        let g = n.lock().unwrap();
        [g.reads, g.writes, g.flushes]
    };
    let res = Conn::open(s.kind, MAGIC, s.role, s.garbage.clone(), s.decoys.clone(), &n);
    if judge(0, res.as_ref().map(|_| ()).map_err(|e| e), "handshake")? {
        return Ok((true, totals(&n)));
    }
    let mut c = match res {
        Ok(c) => c,
        Err(_) => unreachable!(),
    };
    all_sent(&n.lock().unwrap(), &p, s, 0, "handshake")?;
    let (mut wi, mut ri) = (0, 0);
    for write in &s.order {
        let before = fault.map_or(0, |(w, _, _)| ops(&n.lock().unwrap(), w));
        if *write {
            let res = c.write(&payload(&s.writes[wi]));
            if judge(before, res.as_ref().map(|_| ()).map_err(|e| e), "write")? {
                return Ok((true, totals(&n)));
            }
            wi += 1;
            all_sent(&n.lock().unwrap(), &p, s, wi, "write")?;
        } else {
            let res = c.read();
            if judge(before, res.as_ref().map(|_| ()).map_err(|e| e), "read")? {
                return Ok((true, totals(&n)));
            }
            let x = res.unwrap();
            ensure!(
                x.contents() == s.cfg.session[ri].contents,
                "read reported success with other contents than packet {ri}"
            );
            ri += 1;
        }
    }
    let g = n.lock().unwrap();
    ensure!(
        g.unflushed_reads == 0,
        "{:?}: waited for the remote with unflushed bytes",
        s.kind
    );
    let t = [g.reads, g.writes, g.flushes];
    drop(g);
    Ok((false, t))
}

/// Every operation of a scenario fails once, with several kinds.
fn plain(c: &mut Case) -> CaseResult {
    let kind = KINDS[(c.idx % 2) as usize];
    let s = scenario(&mut c.rng, kind, true);
    let (_, total) = run(&s, None, false)?;
    c.eval();
    let budget = if c.thorough() { 800 } else { 250 };
    for (wi, w) in [Which::Read, Which::Write, Which::Flush].into_iter().enumerate() {
        let all: Vec<u64> = (0..total[wi]).collect();
        let picks: Vec<u64> = if all.len() <= budget {
            all
        } else {
            (0..budget).map(|_| c.rng.below(all.len()) as u64).collect()
        };
        for k in picks {
            let f = if w != Which::Flush && c.rng.chance(1, 4) {
                Fault::Zero
            } else {
                Fault::Err(any_kind(&mut c.rng))
            };
            let f = if c.rng.chance(1, 8) { Fault::Err(ErrorKind::Interrupted) } else { f };
            // interrupted operations shift the count, so the index may be past the end
            let sticky = c.rng.coin() && f != Fault::Err(ErrorKind::Interrupted);
            let (fired, _) = match run(&s, Some((w, k, f)), sticky) {
                Ok(x) => x,
                Err(e) => return Err(e),
            };
            c.eval();
            if fired {
                c.sig(&[
                    kind as u64,
                    wi as u64,
                    k,
                    hash_str(&format!("{f:?}")),
                    sticky as u64,
                ]);
                match w {
                    Which::Read => c.count("read faults fired", 1),
                    Which::Write => c.count("write faults fired", 1),
                    Which::Flush => c.count("flush faults fired", 1),
                }
            } else {
                c.count("faults not reached", 1);
            }
        }
    }
    c.sample(|| {
        format!(
            "{kind:?} {:?}: {} reads, {} writes, {} flushes each failed once; read segments {:?}, write segments {:?}",
            s.role, total[0], total[1], total[2], s.rseg, s.wseg
        )
    });
    Ok(())
}

/// A packet of every length in each direction: clean, and with a fault at one of the last operations.
fn every_length(c: &mut Case) -> CaseResult {
    let kind = KINDS[(c.idx % 2) as usize];
    let lens = shaped::sweep_lengths((c.idx / 2) % shaped::sweep_slices());
    let mut fired_all = 0;
    for len in &lens {
        let mut s = scenario(&mut c.rng, kind, true);
        let r = &mut c.rng;
        let h = *r.pick(&[0u8, 0, 0x80]);
        s.writes = vec![pkt(h, &r.content(*len))];
        let h = *r.pick(&[0u8, 0, 0x80]);
        s.cfg.session = vec![pkt(h, &r.content(*len))];
        s.order = if r.coin() { vec![true, false] } else { vec![false, true] };
        let seg = |r: &mut Rng| match r.below(4) {
            0 => Seg::All,
            1 => Seg::Fixed(len / 2 + 1),
            2 => Seg::Fixed(len / 5 + 7),
            _ => Seg::Random(len / 2 + 20),
        };
        s.rseg = seg(r);
        s.wseg = seg(r);
        let (_, total) = run(&s, None, false)?;
        for w in [Which::Read, Which::Write, Which::Flush] {
            let r = &mut c.rng;
            let all = total[w as usize];
            let k = all - 1 - (r.below(5) as u64).min(all - 1);
            let f = if w != Which::Flush && r.chance(1, 3) {
                Fault::Zero
            } else {
                Fault::Err(any_kind(r))
            };
            let f = if r.chance(1, 8) { Fault::Err(ErrorKind::Interrupted) } else { f };
            let sticky = r.coin() && f != Fault::Err(ErrorKind::Interrupted);
            fired_all += run(&s, Some((w, k, f)), sticky)?.0 as u64;
        }
        c.evals(4);
    }
    c.count("lengths swept", lens.len() as u64);
    c.count("faults fired in sweeps", fired_all);
    c.sig(&[9, c.idx]);
    Ok(())
}

/// No fault: short writes, not-ready results and interruptions only.
fn clean(c: &mut Case) -> CaseResult {
    let kind = KINDS[(c.idx % 2) as usize];
    let mut s = scenario(&mut c.rng, kind, false);
    if c.rng.chance(1, 6) {
        let n = c.rng.range(60_000, 300_000);
        s.writes[0].contents = c.rng.bytes(n);
        s.wseg = Seg::Random(5000);
    }
    if kind == Kind::Sync {
        s.interrupt = *c.rng.pick(&[0usize, 30, 90]);
    }
    let (_, total) = run(&s, None, false)?;
    c.eval();
    c.sig(&[7, kind as u64, total[0], total[1]]);
    c.count("short or delayed operations", total[1] + total[0]);
    Ok(())
}

/// Faults below a shaped connection: handshake, padded writes.
fn shaped_sync(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let (padding, decoys) = shaped::STRATEGIES[r.below(2)];
    let role = ROLES[r.below(2)];
    let cfg = PeerCfg::new(r, role);
    let n = net(r.u64());
    n.lock().unwrap().log = false;
    let p = attach(&n, cfg, None);
    let (rec, w) = shaped::rec(r.u64(), &n);
    let writes = 4;
    let mw = *r.pick(&[usize::MAX, usize::MAX, 200]);
    // fault positions over the whole life of the connection
    let span = if mw == usize::MAX { 2 + writes * 2 + 1 } else { 40 };
    let k = r.below(span as usize) as u64;
    let flush = r.coin() && mw == usize::MAX;
    let f = if !flush && r.chance(1, 4) {
        Fault::Zero
    } else {
        Fault::Err(any_kind(r))
    };
    {
        let mut g = rec.0.lock().unwrap();
        g.max_write = mw;
        g.sticky = r.coin();
        if flush {
            g.ffault = Some((k, f));
        } else {
            g.wfault = Some((k, f));
        }
    }
    let fired = |rec: &RecRef| rec.0.lock().unwrap().fired;
    let check = |what: &str, was: bool, res: Result<(), ProtocolError>| -> Result<bool, Fail> {
        let now = fired(&rec);
        match res {
            Ok(()) if now && !was => Err(Fail::Violation(format!(
                "shaped {what} reported success although {} {k} ended with {f:?} (padding {padding})",
                if flush { "flush" } else { "write" }
            ))),
            Ok(()) => {
                let g = rec.0.lock().unwrap();
                ensure!(
                    g.flushed == g.out.len(),
                    "shaped {what} reported success with {} of {} bytes flushed",
                    g.flushed,
                    g.out.len()
                );
                Ok(false)
            }
            Err(e) => {
                ensure!(now, "shaped {what} fails over a working transport: {}", err_class(&e));
                let want = match f {
                    Fault::Err(x) => x,
                    Fault::Zero => ErrorKind::WriteZero,
                };
                ensure!(
                    shaped::kind_of(&e) == Some(want),
                    "shaped {what}: {f:?} of the transport reported as {}",
                    err_class(&e)
                );
                Ok(true)
            }
        }
    };
    let conn = bip324_traffic::io::ShapedProtocol::new(
        MAGIC,
        role,
        shaped::config(padding, decoys),
        R(n.clone()),
        w,
    );
    let (mut conn, res) = match conn {
        Ok(c) => (Some(c), Ok(())),
        Err(e) => (None, Err(e)),
    };
    let mut failed = check("handshake", false, res)?;
    let mut done = Vec::new();
    if let Some(conn) = conn.as_mut() {
        for i in 0..writes {
            let m = shaped::message(r, i, 1500);
            let was = fired(&rec);
            let res = conn.write(&Payload::genuine(m.clone()));
            if check("write", was, res)? {
                failed = true;
                break;
            }
            done.push(m);
            let s = take_session(&p);
            let out = rec.0.lock().unwrap().out.clone();
            match shaped::wire(&out, &s) {
                Ok(w) => {
                    ensure!(w.leftover == 0, "shaped write reported success with a partial packet on the wire");
                    shaped::check_genuine(&w, &done, done.len())?;
                }
                Err(e) => vio!("shaped write reported success but: {e}"),
            }
        }
    }
    drop(conn);
    c.eval();
    if failed {
        c.count("shaped faults fired", 1);
        c.sig(&[20, k, flush as u64, hash_str(&format!("{f:?}")), padding as u64]);
    }
    Ok(())
}

/// A background decoy hits the fault: the next write must say so and nothing may follow.
fn background_sync(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let role = ROLES[r.below(2)];
    let padding = r.coin();
    let cfg = PeerCfg::new(r, role);
    let n = net(r.u64());
    n.lock().unwrap().log = false;
    let _p = attach(&n, cfg, None);
    let (rec, w) = shaped::rec(r.u64(), &n);
    let conn = bip324_traffic::io::ShapedProtocol::new(
        MAGIC,
        role,
        shaped::config(padding, true),
        R(n.clone()),
        w,
    );
    let mut conn = match conn {
        Ok(c) => c,
        Err(e) => vio!("shaped handshake: {}", err_class(&e)),
    };
    let f = if r.chance(1, 4) { Fault::Zero } else { Fault::Err(any_kind(r)) };
    let flush = r.chance(1, 4) && f != Fault::Zero;
    {
        let mut g = rec.0.lock().unwrap();
        g.sticky = r.chance(1, 4);
        g.max_write = if r.coin() { 60 } else { usize::MAX };
        if flush {
            g.ffault = Some((g.flushes + r.below(2) as u64, f));
        } else {
            g.wfault = Some((g.writes + r.below(4) as u64, f));
        }
    }
    let mut rounds = 0;
    while !rec.0.lock().unwrap().fired {
        std::thread::sleep(Duration::from_millis(20));
        rounds += 1;
        if rounds > 3000 {
            return Err(Fail::Inconclusive("no background decoy within 600 intervals".into()));
        }
    }
    let before = rec.0.lock().unwrap().out.len();
    let want = match f {
        Fault::Err(x) => x,
        Fault::Zero => ErrorKind::WriteZero,
    };
    let next = match r.below(4) {
        0 => Payload::decoy(b"after".to_vec()),
        1 => Payload::genuine(vec![]),
        _ => Payload::genuine(b"after".to_vec()),
    };
    match conn.write(&next) {
        Ok(()) => vio!("sync: write after a background decoy hit {f:?} reported success"),
        Err(e) => ensure!(
            shaped::kind_of(&e) == Some(want),
            "sync: {f:?} hit by a background decoy is reported as {}",
            err_class(&e)
        ),
    }
    let after = rec.0.lock().unwrap().out.len();
    ensure!(before == after, "sync: bytes written after a partial background decoy");
    c.eval();
    c.count("background decoy faults (sync)", 1);
    c.sig(&[30, hash_str(&format!("{f:?}")), flush as u64, padding as u64]);
    Ok(())
}

fn background_async(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let role = ROLES[r.below(2)];
    let padding = r.coin();
    let cfg = PeerCfg::new(r, role);
    let n = net(r.u64());
    n.lock().unwrap().log = false;
    let _p = attach(&n, cfg, None);
    let (rec, w) = shaped::rec(r.u64(), &n);
    let f = if r.chance(1, 4) { Fault::Zero } else { Fault::Err(any_kind(r)) };
    let flush = r.chance(1, 4) && f != Fault::Zero;
    let idle = r.coin();
    let rt = shaped::runtime();
    let seed = r.u64();
    let (n2, rec2) = (n.clone(), rec.clone());
    let res: CaseResult = rt.block_on(async move {
        let mut r = Rng::new(seed);
        let conn = bip324_traffic::futures::ShapedProtocol::new(
            MAGIC,
            role,
            shaped::config(padding, idle),
            R(n2),
            w,
        )
        .await;
        let mut conn = match conn {
            Ok(c) => c,
            Err(e) => vio!("shaped handshake: {}", err_class(&e)),
        };
        {
            let mut g = rec2.0.lock().unwrap();
            g.sticky = r.chance(1, 4);
            g.max_write = if r.coin() { 60 } else { usize::MAX };
            if flush {
                g.ffault = Some((g.flushes + r.below(2) as u64, f));
            } else {
                g.wfault = Some((g.writes + r.below(4) as u64, f));
            }
        }
        let want = match f {
            Fault::Err(x) => x,
            Fault::Zero => ErrorKind::WriteZero,
        };
        for i in 0..4000 {
            if idle {
                tokio::time::sleep(Duration::from_millis(7)).await;
                if !rec2.0.lock().unwrap().fired {
                    continue;
                }
            }
            // let background work come to rest
            let before = rec2.0.lock().unwrap().out.len();
            let was = rec2.0.lock().unwrap().fired;
            let next = match r.below(4) {
                0 => Payload::decoy(vec![1; 10]),
                1 => Payload::genuine(vec![]),
                _ => Payload::genuine(vec![1; 10]),
            };
            let res = conn.write(&next).await;
            let g = rec2.0.lock().unwrap();
            match res {
                Ok(()) => {
                    ensure!(
                        !g.fired,
                        "async: write reported success although {f:?} was hit (background {idle}, padding {padding})"
                    );
                    ensure!(
                        g.flushed == g.out.len(),
                        "async: shaped write reported success with {} of {} bytes flushed",
                        g.flushed,
                        g.out.len()
                    );
                }
                Err(e) => {
                    ensure!(g.fired, "async: shaped write fails over a working transport: {}", err_class(&e));
                    ensure!(
                        shaped::kind_of(&e) == Some(want),
                        "async: {f:?} reported as {}",
                        err_class(&e)
                    );
                    ensure!(
                        !was || before == g.out.len(),
                        "async: bytes written after a partial background decoy"
                    );
                    return Ok(());
                }
            }
            if i > 3990 {
                break;
            }
        }
        Err(Fail::Inconclusive("no background decoy within 280 intervals".into()))
    });
    res?;
    c.eval();
    c.count(
        if idle { "background decoy faults (async)" } else { "shaped write faults (async)" },
        1,
    );
    c.sig(&[31, hash_str(&format!("{f:?}")), flush as u64, padding as u64, idle as u64]);
    Ok(())
}

/// Faults during the handshake of an async shaped connection.
fn shaped_async_handshake(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let role = ROLES[r.below(2)];
    let (padding, decoys) = shaped::STRATEGIES[r.below(4)];
    let cfg = PeerCfg::new(r, role);
    let n = net(r.u64());
    n.lock().unwrap().log = false;
    let _p = attach(&n, cfg, None);
    let (rec, w) = shaped::rec(r.u64(), &n);
    let which = r.below(3);
    let k = if which == 2 { r.below(5) } else { r.below(2) } as u64;
    let f = if which != 1 && r.chance(1, 4) { Fault::Zero } else { Fault::Err(any_kind(r)) };
    match which {
        0 => rec.0.lock().unwrap().wfault = Some((k, f)),
        1 => rec.0.lock().unwrap().ffault = Some((k, f)),
        _ => n.lock().unwrap().rfault = Some((k, f)),
    }
    let rt = shaped::runtime();
    let n2 = n.clone();
    let res = rt.block_on(async move {
        bip324_traffic::futures::ShapedProtocol::new(MAGIC, role, shaped::config(padding, decoys), R(n2), w)
            .await
            .map(|_| ())
    });
    let fired = if which == 2 {
        n.lock().unwrap().reads > k
    } else {
        rec.0.lock().unwrap().fired
    };
    match res {
        Ok(()) => ensure!(!fired, "async shaped handshake reported success although {f:?} was hit"),
        Err(e) => {
            ensure!(fired, "async shaped handshake fails: {}", err_class(&e));
            let kind = shaped::kind_of(&e);
            let ok = match (f, which) {
                (Fault::Err(x), _) => kind == Some(x),
                (Fault::Zero, 0) => kind == Some(ErrorKind::WriteZero),
                _ => kind.map_or(false, |x| EOFS.contains(&x)),
            };
            ensure!(ok, "async shaped handshake: {f:?} reported as {}", err_class(&e));
            c.count("shaped faults fired", 1);
        }
    }
    c.eval();
    c.sig(&[32, which as u64, k, hash_str(&format!("{f:?}")), padding as u64, decoys as u64]);
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    Suite {
        id: "C13",
        level: "fault_enumeration",
        rule: "a case replays one scripted session once per transport operation with that operation failing (enumerated; kinds drawn); distinct by interface, operation index, kind and stickiness, counted only when the fault fired",
        assumptions: vec![
            "one-shot Interrupted results are retried by the blocking interface and are not failures",
            "errors of background decoys surface with the next write",
        ],
        families: vec![
            fam("plain", t(tier, 60, 1500), plain),
            fam("every_length", t(tier, 2, 60) * shaped::sweep_slices(), every_length),
            fam("clean", t(tier, 600, 15_000), clean),
            sleepy("shaped_sync", t(tier, 500, 6000), 600, shaped_sync),
            sleepy("background_sync", t(tier, 128, 1500), 900, background_sync),
            fam("background_async", t(tier, 400, 10_000), background_async),
            fam("shaped_async_handshake", t(tier, 400, 8000), shaped_async_handshake),
        ],
        require: vec![
            "lengths swept",
            "faults fired in sweeps",
            "read faults fired",
            "write faults fired",
            "flush faults fired",
            "shaped faults fired",
            "background decoy faults (sync)",
            "background decoy faults (async)",
        ],
    }
}
