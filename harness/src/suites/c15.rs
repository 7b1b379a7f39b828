//! C15: shaping emits only what the configured strategies allow.

use super::t;
use crate::net::{net, Seg, R};
use crate::peer::*;
use crate::run::{fam, sleepy, Case, CaseResult, Fail, Suite, Tier};
use crate::shaped;
use crate::util::Rng;
use crate::{ensure, vio};
use bip324::io::Payload;
use std::time::Duration;

const TICK: Duration = Duration::from_millis(100);
/// Intervals without any decoy which are out of the question while decoys are being sent
/// (0.85^300 < 1e-21).
const SILENCE: u32 = 300;

fn strat(padding: bool, decoys: bool) -> String {
    format!("padding {padding}, decoys {decoys}")
}

/// When each unsolicited decoy started: start offsets of session packets looked up in the log of
/// write calls.
fn times(calls: &[(usize, Duration)], w: &shaped::Wire, first: usize) -> Vec<Duration> {
    let mut starts = vec![first];
    starts.extend(w.ends.iter().copied());
    starts
        .iter()
        .take(w.session.len())
        .filter_map(|s| calls.iter().find(|c| c.0 == *s).map(|c| c.1))
        .collect()
}

/// What a connection went through before it became idle: sizes written, packets received.
struct Past {
    writes: Vec<Vec<u8>>,
    reads: Vec<Pkt>,
}

fn past(r: &mut Rng) -> Past {
    let big = |r: &mut Rng| match r.below(4) {
        0 => r.below(4),
        1 => r.below(1000),
        2 => r.below(100_000),
        _ => r.below(20),
    };
    let (w, d) = *r.pick(&[(0usize, 0usize), (0, 1), (1, 0), (1, 1), (4, 4), (0, 6), (6, 0)]);
    Past {
        writes: (0..w).map(|_| { let n = big(r); r.content(n) }).collect(),
        reads: (0..d)
            .map(|_| { let n = big(r); pkt(*r.pick(&[0u8, 0, 0x80]), &r.content(n)) })
            .collect(),
    }
}

/// More packets from the peer.
fn push(n: &crate::net::Shared, p: &PeerRef, pkts: &[Pkt]) {
    let mut v = Vec::new();
    {
        let mut p = p.lock().unwrap();
        let s = p.session.as_mut().expect("session");
        for x in pkts {
            v.extend_from_slice(&s.send.packet(x.header, &x.contents, &[]));
        }
    }
    n.lock().unwrap().push(&v);
}

/// Index of the first session packet starting at or after an offset.
fn index_at(w: &shaped::Wire, off: usize) -> usize {
    w.ends.iter().filter(|e| **e <= off).count()
}

/// Blocking interface, idle connection: nothing, or decoys at most one per interval.
fn idle_threads(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let role = ROLES[r.below(2)];
    let (padding, decoys) = shaped::STRATEGIES[(c.idx % 4) as usize];
    let cfg = PeerCfg::new(r, role);
    let n = net(r.u64());
    n.lock().unwrap().log = false;
    let p = attach(&n, cfg, None);
    let (rec, w) = shaped::rec(r.u64(), &n);
    let conn = bip324_traffic::io::ShapedProtocol::new(
        MAGIC,
        role,
        shaped::config(padding, decoys),
        R(n.clone()),
        w,
    );
    let mut conn = match conn {
        Ok(c) => c,
        Err(e) => vio!("shaped handshake: {}", err_class(&e)),
    };
    let base = rec.0.lock().unwrap().out.len();
    let past = past(r);
    push(&n, &p, &past.reads);
    for _ in &past.reads {
        if let Err(e) = conn.read() {
            vio!("shaped read: {}", err_class(&e));
        }
    }
    for m in &past.writes {
        if let Err(e) = conn.write(&Payload::genuine(m.clone())) {
            vio!("shaped write: {}", err_class(&e));
        }
    }
    let live = r.chance(1, 3);
    let first = rec.0.lock().unwrap().out.len();
    // own intervals pass at least as slowly as those of the connection
    let long = c.idx / 4 % 8 == 0;
    let want = match (c.tier, long) {
        (Tier::Quick, false) => 10,
        (Tier::Quick, true) => 50,
        (Tier::Thorough, false) => 60,
        (Tier::Thorough, true) => 500,
    };
    let quiet = if c.thorough() { 600 } else { 60 };
    let mut silent = 0u32;
    let mut last = first;
    let mut bursts = 0;
    let mut beats = 0u64;
    loop {
        std::thread::sleep(TICK);
        beats += 1;
        if live && beats % 3 == 0 {
            // the peer is not idle
            push(&n, &p, &[pkt(0, &[1; 40])]);
            if let Err(e) = conn.read() {
                vio!("shaped read: {}", err_class(&e));
            }
        }
        let now = rec.0.lock().unwrap().out.len();
        if now != last {
            last = now;
            silent = 0;
            bursts += 1;
        } else {
            silent += 1;
        }
        if decoys {
            ensure!(
                silent < SILENCE,
                "sync, {}: no decoy during {silent} check intervals of idleness, after {bursts}",
                strat(padding, decoys)
            );
            if bursts >= want {
                break;
            }
        } else if beats >= quiet {
            break;
        }
    }
    drop(conn);
    let s = take_session(&p);
    let g = rec.0.lock().unwrap();
    let mut w = match shaped::wire(&g.out, &s) {
        Ok(w) => w,
        Err(e) => vio!("sync, {}: {e}", strat(padding, decoys)),
    };
    shaped::check_strategy(&mut w, padding, decoys, false)?;
    shaped::check_genuine(&w, &past.writes, past.writes.len())?;
    let idle_from = index_at(&w, first);
    let idle = w.session.len() - idle_from;
    ensure!(
        w.session[idle_from..].iter().all(|x| x.0),
        "sync: genuine packet on an idle connection"
    );
    ensure!(
        decoys || idle == 0,
        "sync, {}: {idle} packets on an idle connection",
        strat(padding, decoys),
    );
    let ts = times(&g.calls, &w, base).split_off(idle_from);
    ensure!(
        ts.len() == idle,
        "sync: a decoy does not start with a transport write of its own"
    );
    for (i, x) in ts.windows(2).enumerate() {
        ensure!(
            x[1] - x[0] >= TICK - Duration::from_millis(2),
            "sync, {}: decoys {i} and {} only {:?} apart",
            strat(padding, decoys),
            i + 1,
            x[1] - x[0]
        );
    }
    drop(g);
    c.evals(w.session.len() as u64 + beats);
    c.count("idle connections with a past", !past.reads.is_empty() as u64 | !past.writes.is_empty() as u64);
    c.count("idle intervals (sync)", beats);
    c.count("unsolicited decoys (sync)", w.session.len() as u64);
    c.sig(&[1, padding as u64, decoys as u64, w.session.len() as u64, w.garbage.len() as u64]);
    c.sample(|| format!("sync idle, {}: {beats} intervals, {} decoys", strat(padding, decoys), w.session.len()));
    Ok(())
}

/// Virtual time: very long idle connections.
fn idle_tasks(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let role = ROLES[r.below(2)];
    let (padding, decoys) = shaped::STRATEGIES[(c.idx % 4) as usize];
    let cfg = PeerCfg::new(r, role);
    let n = net(r.u64());
    n.lock().unwrap().log = false;
    let p = attach(&n, cfg, None);
    let (rec, w) = shaped::rec(r.u64(), &n);
    let ticks: u32 = match c.idx / 4 % 16 {
        0 => 20_000,
        // hours of virtual idleness
        1 if decoys => 100_000 + r.below(200_000) as u32,
        _ => 2_000,
    };
    let ticks = if c.thorough() { ticks * 3 } else { ticks };
    let rt = shaped::runtime();
    let r = &mut c.rng;
    let past = past(r);
    let live = r.chance(1, 3);
    n.lock().unwrap().starve_pending = true;
    let (n2, rec2, p2) = (n.clone(), rec.clone(), p.clone());
    let (reads, writes) = (past.reads.clone(), past.writes.clone());
    let first: Result<(usize, usize, Duration), Fail> = rt.block_on(async move {
        let n3 = n2.clone();
        rec2.0.lock().unwrap().virt = Some(tokio::time::Instant::now());
        let conn = bip324_traffic::futures::ShapedProtocol::new(
            MAGIC,
            role,
            shaped::config(padding, decoys),
            R(n2),
            w,
        )
        .await;
        let mut conn = match conn {
            Ok(c) => c,
            Err(e) => vio!("shaped handshake: {}", err_class(&e)),
        };
        let base = rec2.0.lock().unwrap().out.len();
        push(&n3, &p2, &reads);
        for _ in &reads {
            if let Err(e) = conn.read().await {
                vio!("shaped read: {}", err_class(&e));
            }
        }
        for m in &writes {
            if let Err(e) = conn.write(&Payload::genuine(m.clone())).await {
                vio!("shaped write: {}", err_class(&e));
            }
        }
        let (first, from) = {
            let g = rec2.0.lock().unwrap();
            (g.out.len(), g.virt.map(|v| v.elapsed()).unwrap_or_default())
        };
        for _ in 0..ticks / 100 {
            tokio::time::sleep(TICK * 100).await;
            if live {
                push(&n3, &p2, &[pkt(0, &[1; 40])]);
                if let Err(e) = conn.read().await {
                    vio!("shaped read: {}", err_class(&e));
                }
            }
        }
        drop(conn);
        for _ in 0..100 {
            tokio::time::sleep(TICK).await;
            if rec2.0.lock().unwrap().dropped {
                break;
            }
        }
        Ok((base, first, from))
    });
    let (base, first, from) = first?;
    let s = take_session(&p);
    let g = rec.0.lock().unwrap();
    let mut w = match shaped::wire(&g.out, &s) {
        Ok(w) => w,
        Err(e) => vio!("async, {}: {e}", strat(padding, decoys)),
    };
    shaped::check_strategy(&mut w, padding, decoys, false)?;
    shaped::check_genuine(&w, &past.writes, past.writes.len())?;
    let idle_from = index_at(&w, first);
    let idle = w.session.len() - idle_from;
    ensure!(
        w.session[idle_from..].iter().all(|x| x.0),
        "async: genuine packet on an idle connection"
    );
    ensure!(
        decoys || idle == 0,
        "async, {}: {idle} packets on an idle connection",
        strat(padding, decoys),
    );
    let ts = times(&g.calls, &w, base).split_off(idle_from);
    ensure!(
        ts.len() == idle,
        "async: a decoy does not start with a transport write of its own"
    );
    for (i, x) in ts.windows(2).enumerate() {
        ensure!(
            x[1] - x[0] >= TICK - Duration::from_millis(3),
            "async, {}: decoys {i} and {} only {:?} apart",
            strat(padding, decoys),
            i + 1,
            x[1] - x[0]
        );
    }
    if decoys {
        let mut prev = from;
        for x in ts.iter().chain([&(from + TICK * (ticks / 100 * 100))]) {
            ensure!(
                x.saturating_sub(prev) < TICK * SILENCE,
                "async, {}: no decoy for {:?} of idleness after {prev:?}",
                strat(padding, decoys),
                x.saturating_sub(prev)
            );
            prev = *x;
        }
    }
    drop(g);
    c.evals(w.session.len() as u64 + 1);
    c.count("idle connections with a past", !past.reads.is_empty() as u64 | !past.writes.is_empty() as u64);
    c.count("idle intervals (async)", ticks as u64);
    c.count("unsolicited decoys (async)", w.session.len() as u64);
    c.sig(&[2, padding as u64, decoys as u64, w.session.len() as u64, w.garbage.len() as u64]);
    c.sample(|| format!("async idle, {}: {ticks} virtual intervals, {} decoys", strat(padding, decoys), w.session.len()));
    Ok(())
}

/// Writes under every strategy, async; the cumulative number of unsolicited decoys is bounded by
/// the intervals passed at every moment.
fn writes_tasks(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let role = ROLES[r.below(2)];
    let (padding, decoys) = shaped::STRATEGIES[(c.idx % 4) as usize];
    let cfg = PeerCfg::new(&mut r, role);
    let n = net(r.u64());
    n.lock().unwrap().log = false;
    let p = attach(&n, cfg, None);
    let (rec, w) = shaped::rec(r.u64(), &n);
    let count = if c.thorough() { 600 } else { 250 };
    let pace = *r.pick(&[0usize, 30, 400]);
    let slow = *r.pick(&[0usize, 0, 30]);
    let rt = shaped::runtime();
    let (n2, rec2) = (n.clone(), rec.clone());
    let seed = r.u64();
    let res: Result<(Vec<Vec<u8>>, usize), Fail> = rt.block_on(async move {
        let mut r = Rng::new(seed);
        {
            let mut g = rec2.0.lock().unwrap();
            g.virt = Some(tokio::time::Instant::now());
            g.slow_pct = slow;
            g.delay = Duration::from_millis(350);
        }
        let conn = bip324_traffic::futures::ShapedProtocol::new(
            MAGIC,
            role,
            shaped::config(padding, decoys),
            R(n2),
            w,
        )
        .await;
        let mut conn = match conn {
            Ok(c) => c,
            Err(e) => vio!("shaped handshake: {}", err_class(&e)),
        };
        let first = rec2.0.lock().unwrap().out.len();
        let mut want = Vec::new();
        for i in 0..count {
            if pace > 0 && r.coin() {
                let ms = r.below(pace) as u64;
                tokio::time::sleep(Duration::from_millis(ms)).await;
            }
            let m = shaped::message(&mut r, i, 900);
            if let Err(e) = conn.write(&Payload::genuine(m.clone())).await {
                vio!("shaped write: {}", err_class(&e));
            }
            want.push(m);
        }
        drop(conn);
        for _ in 0..3000 {
            if rec2.0.lock().unwrap().dropped {
                break;
            }
            tokio::time::sleep(TICK).await;
        }
        Ok((want, first))
    });
    let (want, first) = res?;
    let s = take_session(&p);
    let g = rec.0.lock().unwrap();
    let mut w = match shaped::wire(&g.out, &s) {
        Ok(w) => w,
        Err(e) => vio!("async, {}: {e}", strat(padding, decoys)),
    };
    shaped::check_genuine(&w, &want, want.len())?;
    shaped::check_strategy(&mut w, padding, decoys, false)?;
    let ts = times(&g.calls, &w, first);
    if ts.len() == w.session.len() {
        // decoys so far minus those that may be padding
        let (mut d, mut gen) = (0i64, 0i64);
        for (x, at) in w.session.iter().zip(&ts) {
            if x.0 {
                d += 1;
            } else {
                gen += 1;
            }
            let uns = d - if padding { gen + 1 } else { 0 };
            let ticks = (at.as_millis() / 100) as i64 + 1;
            ensure!(
                uns <= ticks,
                "async, {}: {uns} unsolicited decoys after {at:?}",
                strat(padding, decoys)
            );
        }
    }
    drop(g);
    c.evals(w.session.len() as u64);
    c.count("genuine packets examined for padding", want.len() as u64);
    if padding {
        c.count("padding decoys", want.len() as u64);
    }
    c.count("unsolicited decoys (async)", w.unsolicited as u64);
    c.sig(&[3, padding as u64, decoys as u64, pace as u64, slow as u64, w.unsolicited as u64, w.garbage.len() as u64]);
    c.sample(|| {
        format!(
            "async, {}: {} writes, {} unsolicited decoys, {} bytes of garbage, handshake decoys {:?}",
            strat(padding, decoys),
            want.len(),
            w.unsolicited,
            w.garbage.len(),
            w.hs_decoys
        )
    });
    Ok(())
}

/// Writes under every strategy, threads.
fn writes_threads(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let role = ROLES[r.below(2)];
    let (padding, decoys) = shaped::STRATEGIES[(c.idx % 4) as usize];
    let cfg = PeerCfg::new(r, role);
    let n = net(r.u64());
    n.lock().unwrap().log = false;
    let p = attach(&n, cfg, None);
    let (rec, w) = shaped::rec(r.u64(), &n);
    let start = std::time::Instant::now();
    let conn = bip324_traffic::io::ShapedProtocol::new(
        MAGIC,
        role,
        shaped::config(padding, decoys),
        R(n.clone()),
        w,
    );
    let mut conn = match conn {
        Ok(c) => c,
        Err(e) => vio!("shaped handshake: {}", err_class(&e)),
    };
    let count = r.range(20, 150);
    let mut want = Vec::new();
    let mut slept = 0;
    for i in 0..count {
        let m = shaped::message(r, i, 900);
        if let Err(e) = conn.write(&Payload::genuine(m.clone())) {
            vio!("shaped write: {}", err_class(&e));
        }
        want.push(m);
        if r.chance(1, 4) && slept < 3000 {
            let ms = r.range(1, 150) as u64;
            slept += ms;
            std::thread::sleep(Duration::from_millis(ms));
        }
    }
    drop(conn);
    let elapsed = start.elapsed();
    let s = take_session(&p);
    let out = rec.0.lock().unwrap().out.clone();
    let mut w = match shaped::wire(&out, &s) {
        Ok(w) => w,
        Err(e) => vio!("sync, {}: {e}", strat(padding, decoys)),
    };
    shaped::check_genuine(&w, &want, want.len())?;
    shaped::check_strategy(&mut w, padding, decoys, false)?;
    let max = elapsed.as_millis() as usize / 100 + 1;
    ensure!(
        w.unsolicited <= max,
        "sync, {}: {} unsolicited decoys within {elapsed:?}",
        strat(padding, decoys),
        w.unsolicited
    );
    c.evals(w.session.len() as u64);
    c.count("genuine packets examined for padding", want.len() as u64);
    c.count("unsolicited decoys (sync)", w.unsolicited as u64);
    c.sig(&[4, padding as u64, decoys as u64, w.unsolicited as u64, w.garbage.len() as u64]);
    Ok(())
}

/// Both strategies off: byte for byte the lengths of the plain protocol, and nothing else.
fn plain_equal(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let role = ROLES[r.below(2)];
    let cfg = PeerCfg::new(&mut r, role);
    let msgs: Vec<Vec<u8>> = (0..r.below(20)).map(|i| shaped::message(&mut r, i, 2000)).collect();
    // plain
    let n = net(1);
    let (mut plain, p) = established(Kind::Async, role, cfg.clone(), None, None, &n);
    let mut marks = vec![n.lock().unwrap().out.len()];
    for m in &msgs {
        if let Err(e) = plain.write(&Payload::genuine(m.clone())) {
            vio!("plain write: {}", err_class(&e));
        }
        marks.push(n.lock().unwrap().out.len());
    }
    let _ = p;
    // shaped
    let n = net(1);
    let p = attach(&n, cfg, None);
    let (rec, w) = shaped::rec(1, &n);
    let rt = shaped::runtime();
    let (n2, rec2, m2) = (n.clone(), rec.clone(), msgs.clone());
    let res: Result<Vec<usize>, Fail> = rt.block_on(async move {
        rec2.0.lock().unwrap().virt = Some(tokio::time::Instant::now());
        let conn = bip324_traffic::futures::ShapedProtocol::new(
            MAGIC,
            role,
            bip324_traffic::TrafficConfig::default(),
            R(n2),
            w,
        )
        .await;
        let mut conn = match conn {
            Ok(c) => c,
            Err(e) => vio!("shaped handshake: {}", err_class(&e)),
        };
        tokio::time::sleep(TICK * 20).await;
        let mut marks = vec![rec2.0.lock().unwrap().out.len()];
        for m in &m2 {
            if let Err(e) = conn.write(&Payload::genuine(m.clone())).await {
                vio!("shaped write: {}", err_class(&e));
            }
            tokio::time::sleep(TICK * 5).await;
            marks.push(rec2.0.lock().unwrap().out.len());
        }
        Ok(marks)
    });
    let got = res?;
    ensure!(
        got == marks,
        "both strategies disabled: {got:?} bytes sent after each step, the plain protocol sends {marks:?}"
    );
    let s = take_session(&p);
    let out = rec.0.lock().unwrap().out.clone();
    match shaped::wire(&out, &s) {
        Ok(w) => shaped::check_genuine(&w, &msgs, msgs.len())?,
        Err(e) => vio!("both strategies disabled: {e}"),
    }
    c.eval();
    c.count("sessions equal to the plain protocol", 1);
    c.sig(&[5, msgs.len() as u64, out.len() as u64]);
    Ok(())
}

/// Genuine packets of every length under every strategy.
fn every_length(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let x = shaped::sweep(&mut r, c.idx)?;
    let what = format!("{}, {}", if x.sync { "sync" } else { "async" }, strat(x.padding, x.decoys));
    let mut w = match shaped::wire(&x.out, &take_session(&x.peer)) {
        Ok(w) => w,
        Err(e) => vio!("{what}: {e}"),
    };
    if let Err(e) = shaped::check_strategy(&mut w, x.padding, x.decoys, false) {
        return Err(match e {
            Fail::Violation(m) => Fail::Violation(format!("{what}: {m}")),
            e => e,
        });
    }
    c.evals(x.sent.len() as u64);
    c.count("lengths swept", x.sent.len() as u64);
    c.sig(&[8, c.idx, w.unsolicited as u64]);
    Ok(())
}

/// Handshakes under every strategy: garbage and decoys within limits.
fn handshakes(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let role = ROLES[r.below(2)];
    let (padding, decoys) = shaped::STRATEGIES[1 + (c.idx % 3) as usize];
    let cfg = PeerCfg::new(r, role);
    let n = net(r.u64());
    n.lock().unwrap().log = false;
    let p = attach(&n, cfg, None);
    let (rec, w) = shaped::rec(r.u64(), &n);
    let rt = shaped::runtime();
    let n2 = n.clone();
    let res = rt.block_on(async move {
        bip324_traffic::futures::ShapedProtocol::new(MAGIC, role, shaped::config(padding, decoys), R(n2), w)
            .await
            .map(|_| ())
    });
    if let Err(e) = res {
        vio!("shaped handshake, {}: {}", strat(padding, decoys), err_class(&e));
    }
    let s = take_session(&p);
    let out = rec.0.lock().unwrap().out.clone();
    let mut w = match shaped::wire(&out, &s) {
        Ok(w) => w,
        Err(e) => vio!("{}: {e}", strat(padding, decoys)),
    };
    shaped::check_strategy(&mut w, padding, decoys, false)?;
    c.eval();
    c.count("handshakes", 1);
    c.count("handshake decoys", w.hs_decoys.len() as u64);
    c.sig(&[6, w.garbage.len() as u64, w.hs_decoys.iter().sum::<usize>() as u64]);
    Ok(())
}

/// Only the first message of many connections: garbage length limits at their edges.
fn garbage_lengths(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let role = ROLES[r.below(2)];
    let mut lens = std::collections::BTreeSet::new();
    for i in 0..1000 {
        let padding = i % 10 != 0;
        let decoys = r.coin();
        let n = net(i);
        {
            let mut g = n.lock().unwrap();
            g.log = false;
            g.eof = true;
            g.wseg = Seg::All;
        }
        let cfg = shaped::config(padding, decoys);
        let e = if i % 2 == 0 {
            bip324_traffic::io::ShapedProtocol::new(MAGIC, role, cfg, R(n.clone()), crate::net::W(n.clone()))
                .map(|_| ())
                .err()
        } else {
            crate::net::block(
                bip324_traffic::futures::ShapedProtocol::new(MAGIC, role, cfg, R(n.clone()), crate::net::W(n.clone())),
                &[&n],
            )
            .map(|_| ())
            .err()
        };
        match e {
            Some(bip324::io::ProtocolError::Io(..)) => {}
            Some(e) => vio!("shaped handshake (padding {padding}) fails with {}", err_class(&e)),
            None => vio!("shaped handshake without a peer completed"),
        }
        let len = n.lock().unwrap().out.len();
        ensure!(len >= 64, "{len} bytes sent as key");
        ensure!(
            len - 64 <= if padding { 4095 } else { 0 },
            "{} bytes of garbage with padding {padding}",
            len - 64
        );
        if padding {
            lens.insert(len - 64);
        }
    }
    c.evals(1000);
    c.count("first messages", 1000);
    for l in &lens {
        c.sig(&[7, *l as u64]);
    }
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    Suite {
        id: "C15",
        level: "exploration",
        rule: "a case is one shaped connection (idle or written to) whose whole stream is decrypted and judged against the configured strategies; distinct by strategy, interface, garbage length and decoy counts",
        assumptions: vec![
            "'keep being sent' is judged as no silence of 300 check intervals (the library sends one with probability 0.15 per interval)",
            "asynchronous sessions run on virtual time",
        ],
        families: vec![
            sleepy("idle_threads", t(tier, 64, 128), 40_000, idle_threads),
            sleepy("writes_threads", t(tier, 96, 1000), 1500, writes_threads),
            fam("idle_tasks", t(tier, 64, 800), idle_tasks),
            fam("writes_tasks", t(tier, 120, 3000), writes_tasks),
            fam("plain_equal", t(tier, 150, 4000), plain_equal),
            fam("every_length", t(tier, 8, 160) * shaped::sweep_slices(), every_length),
            fam("handshakes", t(tier, 3000, 40_000), handshakes),
            fam("garbage_lengths", t(tier, 40, 800), garbage_lengths),
        ],
        require: vec![
            "lengths swept",
            "idle connections with a past",
            "idle intervals (sync)",
            "unsolicited decoys (sync)",
            "unsolicited decoys (async)",
            "padding decoys",
            "handshake decoys",
            "sessions equal to the plain protocol",
            "first messages",
        ],
    }
}
