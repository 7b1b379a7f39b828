//! C14: shaping is transparent to genuine data.

use super::t;
use crate::net::{net, Seg, Shared, R};
use crate::peer::*;
use crate::run::{fam, sleepy, Case, CaseResult, Fail, Suite, Tier};
use crate::shaped::{self, RecRef};
use crate::util::Rng;
use crate::{ensure, vio};
use bip324::io::Payload;
use bip324::Role;
use std::time::Duration;

/// An application write: packet, whether its completion was waited for.
struct Sent {
    decoy: bool,
    contents: Vec<u8>,
    must: bool,
}

struct Setup {
    role: Role,
    padding: bool,
    decoys: bool,
    cfg: PeerCfg,
    incoming: Vec<Pkt>,
    max_write: usize,
    slow_pct: usize,
    seed: u64,
}

fn setup(r: &mut Rng, idx: u64) -> Setup {
    let role = ROLES[(idx % 2) as usize];
    let (padding, decoys) = match r.below(6) {
        0 => (false, false),
        1 => (true, false),
        2 | 3 => (false, true),
        _ => (true, true),
    };
    let mut cfg = PeerCfg::varied(r, role);
    let mut incoming = Vec::new();
    for i in 0..r.below(30) {
        let h = *r.pick(&[0u8, 0, 0x80]);
        incoming.push(pkt(h, &shaped::message(r, i, 3000)));
    }
    cfg.session = incoming.clone();
    Setup {
        role,
        padding,
        decoys,
        cfg,
        incoming,
        max_write: *r.pick(&[usize::MAX, usize::MAX, 1, 30, 500]),
        slow_pct: *r.pick(&[0usize, 0, 20, 60]),
        seed: r.u64(),
    }
}

fn transport(s: &Setup) -> (Shared, PeerRef, RecRef, shaped::RecW) {
    let n = net(s.seed);
    {
        let mut g = n.lock().unwrap();
        g.log = false;
        g.rseg = Seg::Random(700);
        g.starve_pending = true;
    }
    let p = attach(&n, s.cfg.clone(), None);
    let (rec, w) = shaped::rec(s.seed ^ 1, &n);
    (n, p, rec, w)
}

fn check_read(i: usize, want: &Pkt, got: &Payload) -> CaseResult {
    ensure!(
        got.contents() == want.contents && got.packet_type() == ptype(want.header),
        "read {i} through the shaped interface returns {:?} of {} bytes, the peer sent {:?} of {} bytes",
        got.packet_type(),
        got.contents().len(),
        ptype(want.header),
        want.contents.len()
    );
    Ok(())
}

/// The whole stream against the application's writes.
fn judge(c: &mut Case, rec: &RecRef, p: &PeerRef, sent: &[Sent]) -> CaseResult {
    let s = take_session(p);
    let out = rec.0.lock().unwrap().out.clone();
    let w = match shaped::wire(&out, &s) {
        Ok(w) => w,
        Err(e) => vio!("the bytes of a shaped connection do not parse: {e}"),
    };
    ensure!(
        w.leftover == 0,
        "the stream of a cleanly closed shaped connection ends with {} bytes of a partial packet",
        w.leftover
    );
    // genuine packets: the writes in order, those not waited for may be missing
    let got: Vec<&Vec<u8>> = w.session.iter().filter(|x| !x.0).map(|x| &x.1).collect();
    let mut gi = 0;
    for (i, x) in sent.iter().enumerate().filter(|(_, x)| !x.decoy) {
        if gi < got.len() && *got[gi] == x.contents {
            gi += 1;
        } else {
            ensure!(
                !x.must,
                "write {i} ({} bytes) is not at its place among the genuine packets ({} of {})",
                x.contents.len(),
                gi,
                got.len()
            );
        }
    }
    ensure!(
        gi == got.len(),
        "{} genuine packets on the wire, {} of them match the writes in order",
        got.len(),
        gi
    );
    // everything, decoys of the application included, keeps its order
    let mut at = 0;
    for (i, x) in sent.iter().enumerate() {
        let found = w.session[at..]
            .iter()
            .position(|k| k.0 == x.decoy && k.1 == x.contents);
        match found {
            Some(k) => at += k + 1,
            None => ensure!(!x.must, "write {i} is out of order or missing on the wire"),
        }
    }
    let decoys = w.session.iter().filter(|x| x.0).count() as u64;
    c.count("genuine packets decrypted by the peer", got.len() as u64);
    c.count("decoys decrypted by the peer", decoys);
    let mixed = w
        .session
        .windows(2)
        .filter(|x| x[0].0 != x[1].0)
        .count() as u64;
    c.count("switches between decoys and genuine packets", mixed);
    c.evals(w.session.len() as u64 + 1);
    Ok(())
}

/// Real threads: background decoys against application writes and reads.
fn threads(c: &mut Case) -> CaseResult {
    let s = setup(&mut c.rng, c.idx);
    let (n, p, rec, w) = transport(&s);
    {
        let mut g = rec.0.lock().unwrap();
        g.max_write = s.max_write;
        g.slow_pct = s.slow_pct;
        g.delay = Duration::from_millis(*c.rng.pick(&[1u64, 5, 30, 130]));
        if s.max_write < 100 {
            // a small segment size makes many calls
            g.delay = Duration::from_micros(500);
        }
    }
    let conn = bip324_traffic::io::ShapedProtocol::new(
        MAGIC,
        s.role,
        shaped::config(s.padding, s.decoys),
        R(n.clone()),
        w,
    );
    let mut conn = match conn {
        Ok(c) => c,
        Err(e) => vio!("shaped handshake: {}", err_class(&e)),
    };
    let mut r = Rng::new(c.rng.u64());
    let mut sent = Vec::new();
    let total = r.range(5, 40);
    let max = if s.max_write < 100 { 300 } else { 6000 };
    let budget_ms = if c.thorough() { 12_000 } else { 3500 };
    let split = r.coin();
    let mut slept = 0;
    let mut reads = 0;
    let mut one = |r: &mut Rng, i: usize, sent: &mut Vec<Sent>| {
        let m = shaped::message(r, i, max);
        let decoy = r.chance(1, 10);
        sent.push(Sent {
            decoy,
            contents: m.clone(),
            must: true,
        });
        // pauses: none (bursts), short, or around the check interval
        let ms = match r.below(4) {
            0 | 1 => 0,
            2 => r.below(20) as u64,
            _ => r.range(80, 220) as u64,
        };
        if slept < budget_ms {
            slept += ms;
            std::thread::sleep(Duration::from_millis(ms));
        }
        if decoy {
            Payload::decoy(m)
        } else {
            Payload::genuine(m)
        }
    };
    if !split {
        for i in 0..total {
            let p = one(&mut r, i, &mut sent);
            if let Err(e) = conn.write(&p) {
                vio!("shaped write {i} fails: {}", err_class(&e));
            }
            if reads < s.incoming.len() && r.coin() {
                match conn.read() {
                    Ok(p) => check_read(reads, &s.incoming[reads], &p)?,
                    Err(e) => vio!("shaped read {reads} fails: {}", err_class(&e)),
                }
                reads += 1;
            }
        }
        drop(conn);
    } else {
        let (mut rd, mut wr) = conn.into_split();
        let incoming = &s.incoming;
        let res = crate::run::par(vec![
            Box::new(|| {
                for (i, x) in incoming.iter().enumerate() {
                    match rd.read() {
                        Ok(p) => check_read(i, x, &p)?,
                        Err(e) => vio!("shaped read {i} fails: {}", err_class(&e)),
                    }
                }
                Ok(())
            }),
            Box::new(|| {
                for i in 0..total {
                    let p = one(&mut r, i, &mut sent);
                    if let Err(e) = wr.write(&p) {
                        vio!("shaped write {i} fails: {}", err_class(&e));
                    }
                }
                drop(wr);
                Ok(())
            }),
        ]);
        res?;
        reads = incoming.len();
    }
    judge(c, &rec, &p, &sent)?;
    c.count("shaped reads", reads as u64);
    let g = rec.0.lock().unwrap();
    let sig = [
        1,
        s.padding as u64,
        s.decoys as u64,
        split as u64,
        s.max_write as u64,
        s.slow_pct as u64,
        g.out.len() as u64,
    ];
    drop(g);
    c.sig(&sig);
    c.sample(|| {
        format!(
            "threads, padding {}, decoys {}, split {split}: {total} writes, {reads} reads, slow {}%",
            s.padding, s.decoys, s.slow_pct
        )
    });
    Ok(())
}

/// A message of every length, in both directions.
fn every_length(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let w = shaped::sweep(&mut r, c.idx)?;
    let (rec, _) = shaped::rec(0, &net(0));
    rec.0.lock().unwrap().out = w.out;
    let n = w.sent.len() as u64;
    let sent: Vec<Sent> = w
        .sent
        .into_iter()
        .map(|(decoy, contents)| Sent { decoy, contents, must: true })
        .collect();
    judge(c, &rec, &w.peer, &sent)?;
    c.count("lengths swept", n);
    c.count("shaped reads", n);
    c.sig(&[5, c.idx, w.read]);
    Ok(())
}

/// Virtual time: one task writing, the writer task producing decoys, cancelled writes.
fn tasks(c: &mut Case) -> CaseResult {
    let s = setup(&mut c.rng, c.idx);
    let (n, p, rec, w) = transport(&s);
    let rt = shaped::runtime();
    let mut r = Rng::new(c.rng.u64());
    let delay = Duration::from_millis(*r.pick(&[1u64, 20, 150, 1000]));
    let cancels = r.chance(1, 3);
    let huge = c.idx % 97 == 5;
    let s = std::sync::Arc::new(s);
    let (s2, n2, rec2) = (s.clone(), n.clone(), rec.clone());
    let thorough = c.thorough();
    let res: Result<(Vec<Sent>, usize, u64), Fail> = rt.block_on(async move {
        {
            let mut g = rec2.0.lock().unwrap();
            g.max_write = s2.max_write;
            g.slow_pct = s2.slow_pct;
            g.delay = delay;
            g.virt = Some(tokio::time::Instant::now());
        }
        let conn = bip324_traffic::futures::ShapedProtocol::new(
            MAGIC,
            s2.role,
            shaped::config(s2.padding, s2.decoys),
            R(n2),
            w,
        )
        .await;
        let mut conn = match conn {
            Ok(c) => c,
            Err(e) => vio!("shaped handshake: {}", err_class(&e)),
        };
        let mut sent: Vec<Sent> = Vec::new();
        let total = r.range(5, if thorough { 120 } else { 50 });
        let max = if s2.max_write < 100 { 300 } else { 9000 };
        let mut reads = 0;
        let mut cancelled = 0;
        for i in 0..total {
            let ms = match r.below(4) {
                0 | 1 => 0,
                2 => r.below(100) as u64,
                _ => r.range(50, 2000) as u64,
            };
            if ms > 0 {
                tokio::time::sleep(Duration::from_millis(ms)).await;
            }
            if huge && i == 2 {
                // too long for the length field: refused, and nothing else is disturbed
                let big = Payload::genuine(vec![0u8; 1 << 24]);
                if conn.write(&big).await.is_ok() {
                    vio!("write of 2^24 bytes reported success");
                }
            }
            let m = shaped::message(&mut r, i, max);
            let decoy = r.chance(1, 10);
            let p = if decoy { Payload::decoy(m.clone()) } else { Payload::genuine(m.clone()) };
            if cancels && r.chance(1, 3) {
                let lim = Duration::from_millis(r.below(300) as u64);
                let must = match tokio::time::timeout(lim, conn.write(&p)).await {
                    Ok(Ok(())) => true,
                    Ok(Err(e)) => vio!("shaped write {i} fails: {}", err_class(&e)),
                    Err(_) => {
                        cancelled += 1;
                        false
                    }
                };
                sent.push(Sent { decoy, contents: m, must });
            } else {
                match conn.write(&p).await {
                    Ok(()) => {}
                    Err(e) => vio!("shaped write {i} fails: {}", err_class(&e)),
                }
                sent.push(Sent { decoy, contents: m, must: true });
            }
            if reads < s2.incoming.len() && r.coin() {
                // reads may be cancelled while waiting as well
                match conn.read().await {
                    Ok(p) => check_read(reads, &s2.incoming[reads], &p)?,
                    Err(e) => vio!("shaped read {reads} fails: {}", err_class(&e)),
                }
                reads += 1;
            }
        }
        drop(conn);
        // let the writer task finish what was accepted
        shaped::settle(&rec2, 2000).await;
        Ok((sent, reads, cancelled))
    });
    let (sent, reads, cancelled) = res?;
    judge(c, &rec, &p, &sent)?;
    c.count("shaped reads", reads as u64);
    c.count("cancelled shaped writes", cancelled);
    let len = rec.0.lock().unwrap().out.len() as u64;
    c.sig(&[2, s.padding as u64, s.decoys as u64, s.max_write as u64, s.slow_pct as u64, len]);
    c.sample(|| {
        format!(
            "tasks, padding {}, decoys {}: {} writes ({cancelled} cancelled), {reads} reads, slow {}%",
            s.padding,
            s.decoys,
            sent.len(),
            s.slow_pct
        )
    });
    Ok(())
}

/// Writer and reader halves on a multi-threaded runtime in real time.
fn parallel_tasks(c: &mut Case) -> CaseResult {
    let s = setup(&mut c.rng, c.idx);
    let (n, p, rec, w) = transport(&s);
    {
        let mut g = rec.0.lock().unwrap();
        g.max_write = s.max_write.max(200);
        g.slow_pct = s.slow_pct.min(20);
        g.delay = Duration::from_millis(5);
    }
    let mut r = Rng::new(c.rng.u64());
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(3)
        .thread_name("vh-tokio")
        .enable_time()
        .build()
        .map_err(|e| Fail::Inconclusive(format!("runtime: {e}")))?;
    let incoming = s.incoming.clone();
    let rec2 = rec.clone();
    let (padding, decoys, role) = (s.padding, s.decoys, s.role);
    let res: Result<Vec<Sent>, Fail> = rt.block_on(async move {
        let conn = bip324_traffic::futures::ShapedProtocol::new(
            MAGIC,
            role,
            shaped::config(padding, decoys),
            R(n),
            w,
        )
        .await;
        let conn = match conn {
            Ok(c) => c,
            Err(e) => vio!("shaped handshake: {}", err_class(&e)),
        };
        let (mut rd, mut wr) = conn.into_split();
        let reader = tokio::spawn(async move {
            for (i, x) in incoming.iter().enumerate() {
                match rd.read().await {
                    Ok(p) => check_read(i, x, &p)?,
                    Err(e) => vio!("shaped read {i} fails: {}", err_class(&e)),
                }
            }
            Ok(())
        });
        let mut sent = Vec::new();
        for i in 0..r.range(10, 40) {
            let m = shaped::message(&mut r, i, 3000);
            if r.chance(1, 3) {
                let ms = r.range(1, 150) as u64;
                tokio::time::sleep(Duration::from_millis(ms)).await;
            }
            if let Err(e) = wr.write(&Payload::genuine(m.clone())).await {
                vio!("shaped write {i} fails: {}", err_class(&e));
            }
            sent.push(Sent { decoy: false, contents: m, must: true });
        }
        drop(wr);
        match reader.await {
            Ok(x) => x?,
            Err(e) => return Err(Fail::Inconclusive(format!("reader task: {e}"))),
        }
        shaped::settle(&rec2, 600).await;
        Ok(sent)
    });
    let sent = res?;
    judge(c, &rec, &p, &sent)?;
    c.sig(&[3, s.padding as u64, s.decoys as u64, sent.len() as u64, s.seed]);
    c.count("multi-threaded runtime sessions", 1);
    Ok(())
}

/// Two shaped endpoints talk to each other.
fn pair(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let rt = shaped::runtime();
    let (sa, sb) = (*r.pick(&shaped::STRATEGIES), *r.pick(&shaped::STRATEGIES));
    // Both sides send up to 4095 bytes of garbage and their decoys before they read.
    let cap = *r.pick(&[8192usize, 10_000, 1 << 20]);
    let steps = r.range(10, 60);
    let res: Result<(usize, usize), Fail> = rt.block_on(async move {
        let (w1, r1) = crate::pipe::pipe(cap);
        let (w2, r2) = crate::pipe::pipe(cap);
        let a = bip324_traffic::futures::ShapedProtocol::new(
            MAGIC,
            Role::Initiator,
            shaped::config(sa.0, sa.1),
            r2,
            w1,
        );
        let b = bip324_traffic::futures::ShapedProtocol::new(
            MAGIC,
            Role::Responder,
            shaped::config(sb.0, sb.1),
            r1,
            w2,
        );
        let (a, b) = tokio::join!(a, b);
        let (a, b) = match (a, b) {
            (Ok(a), Ok(b)) => (a, b),
            (a, b) => vio!(
                "shaped handshake between two endpoints: {:?} {:?}",
                a.err().map(|e| err_class(&e)),
                b.err().map(|e| err_class(&e))
            ),
        };
        let mut hs = Vec::new();
        let ends = [a.into_split(), b.into_split()];
        let mut readers = Vec::new();
        let mut writers = Vec::new();
        for (rd, wr) in ends {
            readers.push(rd);
            writers.push(wr);
        }
        let plans: Vec<Vec<Vec<u8>>> = (0..2)
            .map(|_| (0..steps).map(|i| shaped::message(&mut r, i, 2000)).collect())
            .collect();
        let pauses: Vec<Vec<u64>> = (0..2)
            .map(|_| (0..steps).map(|_| if r.coin() { 0 } else { r.below(500) as u64 }).collect())
            .collect();
        for (k, mut wr) in writers.into_iter().enumerate() {
            let (plan, pause) = (plans[k].clone(), pauses[k].clone());
            hs.push(tokio::spawn(async move {
                for (m, ms) in plan.iter().zip(pause) {
                    tokio::time::sleep(Duration::from_millis(ms)).await;
                    if let Err(e) = wr.write(&Payload::genuine(m.clone())).await {
                        vio!("shaped write: {}", err_class(&e));
                    }
                }
                // the writer lives on until both sides have read everything
                tokio::time::sleep(Duration::from_secs(600)).await;
                drop(wr);
                Ok(0usize)
            }));
        }
        for (k, mut rd) in readers.into_iter().enumerate() {
            let plan = plans[1 - k].clone();
            hs.push(tokio::spawn(async move {
                let mut i = 0;
                let mut decoys = 0;
                while i < plan.len() {
                    match rd.read().await {
                        Ok(p) if p.packet_type() == bip324::PacketType::Decoy => decoys += 1,
                        Ok(p) => {
                            ensure!(
                                p.contents() == plan[i],
                                "genuine payload {i} differs between two shaped endpoints"
                            );
                            i += 1;
                        }
                        Err(e) => vio!("shaped read: {}", err_class(&e)),
                    }
                }
                // keep draining so that the other side never blocks
                while let Ok(p) = rd.read().await {
                    ensure!(
                        p.packet_type() == bip324::PacketType::Decoy,
                        "genuine payload nobody sent"
                    );
                    decoys += 1;
                }
                Ok(decoys)
            }));
        }
        let mut decoys = 0;
        for h in hs {
            match tokio::time::timeout(Duration::from_secs(100_000), h).await {
                Ok(Ok(x)) => decoys += x?,
                Ok(Err(e)) => {
                    return Err(Fail::Violation(format!("task of a shaped pair failed: {e}")))
                }
                Err(_) => vio!("shaped pair does not make progress"),
            }
        }
        Ok((steps * 2, decoys))
    });
    let (g, d) = res?;
    c.evals(g as u64);
    c.count("genuine packets between two shaped endpoints", g as u64);
    c.count("decoys between two shaped endpoints", d as u64);
    c.sig(&[4, sa.0 as u64, sa.1 as u64, sb.0 as u64, sb.1 as u64, cap as u64, d as u64]);
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    Suite {
        id: "C14",
        level: "exploration",
        rule: "a case is one shaped session whose complete byte stream the reference decrypts and compares with the application's log; distinct by strategy, interface, transport behaviour and stream length (which differs with every interleaving of decoys)",
        assumptions: vec![
            "writes whose future was dropped may or may not be carried out",
            "interleavings are those produced by real threads and by tokio's scheduler under random pauses, slow and short transports",
        ],
        families: vec![
            sleepy("threads", t(tier, 192, 2000), 1500, threads),
            fam("tasks", t(tier, 400, 10_000), tasks),
            fam("every_length", t(tier, 8, 160) * shaped::sweep_slices(), every_length),
            sleepy("parallel_tasks", t(tier, 48, 600), 1500, parallel_tasks),
            fam("pair", t(tier, 200, 4000), pair),
        ],
        require: vec![
            "lengths swept",
            "genuine packets decrypted by the peer",
            "decoys decrypted by the peer",
            "switches between decoys and genuine packets",
            "shaped reads",
            "cancelled shaped writes",
        ],
    }
}
