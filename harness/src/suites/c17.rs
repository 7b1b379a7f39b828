//! C17: traffic statistics never lose or invent bytes.

use super::t;
use crate::run::{fam, sleepy, Case, CaseResult, Fail, Suite, Tier};
use crate::util::Rng;
use crate::{ensure, vio};
use bip324_traffic::{AtomicTrafficStats, TrafficStats};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant, SystemTime};

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-12 * b.abs().max(1e-300)
}

/// Totals as far as the harness knows them while threads are recording.
#[derive(Default)]
struct Known {
    ws: AtomicU64,
    wf: AtomicU64,
    rs: AtomicU64,
    rf: AtomicU64,
}

fn query(s: &AtomicTrafficStats, k: &Known) -> CaseResult {
    let (wlo, rlo) = (k.wf.load(SeqCst), k.rf.load(SeqCst));
    let q = s.write_read_ratio();
    let (whi, rhi) = (k.ws.load(SeqCst), k.rs.load(SeqCst));
    match q {
        None => ensure!(
            rlo == 0,
            "no ratio although the recording of {rlo} read bytes had completed"
        ),
        Some(q) => {
            ensure!(rhi > 0, "ratio {q} although no byte was read");
            let lo = wlo as f64 / rhi as f64;
            let hi = if rlo == 0 { f64::INFINITY } else { whi as f64 / rlo as f64 };
            ensure!(
                q >= lo * (1.0 - 1e-12) && q <= hi * (1.0 + 1e-12),
                "ratio {q} during recording is outside [{lo}, {hi}] (written {wlo}..{whi}, read {rlo}..{rhi})"
            );
        }
    }
    Ok(())
}

/// Concurrent recording and querying.
fn threads(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let nt = *r.pick(&[2usize, 3, 4, 8, 8]);
    let per = if c.thorough() { 20_000 } else { 5_000 };
    let class = r.below(5);
    let bias = r.below(101);
    let size = move |r: &mut Rng| -> u64 {
        match class {
            0 => 1,
            1 => r.below(3) as u64,
            2 => r.below(2000) as u64,
            3 => r.u64() >> (24 + r.below(40)),
            _ => 1 << r.below(40),
        }
    };
    let plans: Vec<Vec<(bool, u64)>> = (0..nt)
        .map(|_| {
            (0..per)
                .map(|_| {
                    let w = r.below(100) < bias;
                    (w, size(&mut r))
                })
                .collect()
        })
        .collect();
    let (mut wt, mut rt) = (0u64, 0u64);
    for p in &plans {
        for (w, n) in p {
            if *w {
                wt += n;
            } else {
                rt += n;
            }
        }
    }
    let s = Arc::new(if r.coin() {
        AtomicTrafficStats::new()
    } else {
        AtomicTrafficStats::default()
    });
    ensure!(s.write_read_ratio().is_none(), "a new statistic has a ratio");
    let known = Known::default();
    let bar = Barrier::new(nt + 1);
    let live = AtomicU64::new(nt as u64);
    let asked = AtomicU64::new(0);
    let observed = r.coin();
    let mut jobs: Vec<Box<dyn FnOnce() -> CaseResult + Send + '_>> = Vec::new();
    for p in &plans {
        let (s, known, bar, live) = (s.clone(), &known, &bar, &live);
        jobs.push(Box::new(move || {
            // through the trait object, as a user would
            let s: &dyn TrafficStats = &*s;
            bar.wait();
            for (w, n) in p {
                if *w {
                    if observed {
                        known.ws.fetch_add(*n, SeqCst);
                    }
                    s.record_write(*n as usize);
                    if observed {
                        known.wf.fetch_add(*n, SeqCst);
                    }
                } else {
                    if observed {
                        known.rs.fetch_add(*n, SeqCst);
                    }
                    s.record_read(*n as usize);
                    if observed {
                        known.rf.fetch_add(*n, SeqCst);
                    }
                }
            }
            live.fetch_sub(1, SeqCst);
            Ok(())
        }));
    }
    {
        let (s, known, bar, live, asked) = (s.clone(), &known, &bar, &live, &asked);
        jobs.push(Box::new(move || {
            bar.wait();
            while live.load(SeqCst) > 0 {
                if observed {
                    query(&s, known)?;
                    asked.fetch_add(1, SeqCst);
                } else {
                    std::thread::yield_now();
                }
            }
            Ok(())
        }));
    }
    crate::run::par(jobs)?;
    match s.write_read_ratio() {
        None => ensure!(rt == 0, "no ratio after {rt} bytes were read"),
        Some(q) => {
            ensure!(rt > 0, "ratio {q} although no byte was read");
            let want = wt as f64 / rt as f64;
            ensure!(
                close(q, want),
                "{nt} threads recorded {wt} written and {rt} read bytes: ratio {q}, expected {want}"
            );
        }
    }
    let n = asked.load(SeqCst);
    c.evals(n + 1);
    c.count("activities recorded concurrently", (nt * per) as u64);
    c.count("queries during recording", n);
    c.sig(&[1, nt as u64, class as u64, bias as u64, observed as u64]);
    c.sample(|| format!("{nt} threads x {per} records, {wt} written, {rt} read, {n} queries meanwhile"));
    Ok(())
}

/// One thread, every query exact.
fn histories(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let s = AtomicTrafficStats::new();
    let (mut w, mut rd) = (0u64, 0u64);
    for _ in 0..r.range(1, 300) {
        let n = match r.below(5) {
            0 => 0,
            1 => r.below(4) as u64,
            2 => r.below(5000) as u64,
            3 => (1u64 << r.below(50)) - r.below(2) as u64,
            _ => u32::MAX as u64 - 1 + r.below(3) as u64,
        };
        // total below 2^64
        if r.coin() {
            s.record_write(n as usize);
            w += n;
        } else {
            s.record_read(n as usize);
            rd += n;
        }
        match s.write_read_ratio() {
            None => ensure!(rd == 0, "no ratio after {rd} bytes were read"),
            Some(q) => {
                ensure!(rd > 0, "ratio {q} although no byte was read");
                let want = w as f64 / rd as f64;
                ensure!(close(q, want), "written {w}, read {rd}: ratio {q}, expected {want}");
            }
        }
        c.eval();
    }
    if r.chance(1, 4) {
        // far into the range of a counter
        let big = 1u64 << r.range(40, 62);
        s.record_read(big as usize);
        s.record_write(big as usize);
        let q = s.write_read_ratio().unwrap_or(f64::NAN);
        let want = (w + big) as f64 / (rd + big) as f64;
        ensure!(close(q, want), "written {}, read {}: ratio {q}, expected {want}", w + big, rd + big);
        c.eval();
    }
    c.count("ratio queries judged exactly", 1);
    c.sig(&[2, w, rd]);
    Ok(())
}

/// The wall clock and the monotonic clock, read together.
#[derive(Clone, Copy)]
struct Now(Instant, SystemTime);
fn now() -> Now {
    Now(Instant::now(), SystemTime::now())
}
impl Now {
    fn agree(&self, later: &Now) -> bool {
        let m = (later.0 - self.0).as_millis() as i128;
        let w = match later.1.duration_since(self.1) {
            Ok(d) => d.as_millis() as i128,
            Err(_) => return false,
        };
        (m - w).abs() <= 2
    }
}
const SLACK: Duration = Duration::from_millis(4);

/// Query the idle time; the last activity lies between `a` and `b`.
/// None when the clocks disagreed and nothing can be said.
fn idle(s: &dyn TrafficStats, a: Now, b: Now, after: &str) -> Result<bool, Fail> {
    let q0 = now();
    let d = s.time_since_last_activity();
    let q1 = now();
    if !a.agree(&q1) {
        return Ok(false);
    }
    let hi = q1.0 - a.0 + SLACK;
    let lo = (q0.0 - b.0).saturating_sub(SLACK);
    ensure!(
        d <= hi && d >= lo,
        "{} ms since last activity, expected {}..{} ms since {after}",
        d.as_millis(),
        lo.as_millis(),
        hi.as_millis()
    );
    Ok(true)
}

fn idle_times(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let a = now();
    let s = if c.idx % 2 == 0 { AtomicTrafficStats::new() } else { AtomicTrafficStats::default() };
    let b = now();
    let mut last = (a, b, "creation");
    let nap = |r: &mut Rng| {
        let ms = *r.pick(&[0u64, 8, 15, 30, 60, 90]);
        std::thread::sleep(Duration::from_millis(ms));
    };
    let mut judged = 0;
    let mut skipped = 0;
    let mut one = |ok: bool| if ok { judged += 1 } else { skipped += 1 };
    nap(&mut r);
    one(idle(&s, last.0, last.1, last.2)?);
    let mut sig = 0;
    for _ in 0..r.range(2, 10) {
        let n = *r.pick(&[0usize, 0, 1, 100, 1 << 30]);
        let k = r.below(4);
        let a = now();
        let what = match k {
            0 => {
                s.record_read(n);
                if n == 0 { "an empty read" } else { "a read" }
            }
            1 => {
                s.record_write(n);
                if n == 0 { "an empty write" } else { "a write" }
            }
            2 => {
                // a query is no activity
                let _ = s.write_read_ratio();
                let _ = s.time_since_last_activity();
                last.2
            }
            _ => last.2,
        };
        if k < 2 {
            last = (a, now(), what);
        }
        sig = sig * 8 + k as u64 + (n == 0) as u64 * 4;
        nap(&mut r);
        one(idle(&s, last.0, last.1, last.2)?);
    }
    c.evals(judged);
    c.count("idle times judged", judged);
    c.count("idle times not judged (clocks disagree)", skipped);
    c.sig(&[3, sig]);
    Ok(())
}

/// Idle time after threads recorded at the same time.
fn idle_threads(c: &mut Case) -> CaseResult {
    let mut r = Rng::new(c.rng.u64());
    let s = AtomicTrafficStats::new();
    std::thread::sleep(Duration::from_millis(r.range(20, 60) as u64));
    let nt = r.range(2, 6);
    let starts: Vec<std::sync::Mutex<Option<(Now, Now)>>> =
        (0..nt).map(|_| std::sync::Mutex::new(None)).collect();
    let seeds: Vec<u64> = (0..nt).map(|_| r.u64()).collect();
    let mut jobs: Vec<Box<dyn FnOnce() -> CaseResult + Send + '_>> = Vec::new();
    for i in 0..nt {
        let (s, st, seed) = (&s, &starts[i], seeds[i]);
        jobs.push(Box::new(move || {
            let mut r = Rng::new(seed);
            for _ in 0..r.range(1, 200) {
                let a = now();
                if r.coin() {
                    s.record_read(r.below(3));
                } else {
                    s.record_write(r.below(3));
                }
                *st.lock().unwrap() = Some((a, now()));
                if r.chance(1, 50) {
                    std::thread::sleep(Duration::from_millis(r.below(10) as u64));
                }
            }
            Ok(())
        }));
    }
    crate::run::par(jobs)?;
    std::thread::sleep(Duration::from_millis(r.below(50) as u64));
    // The final time stamp stems from the last record of one of the threads.
    let last: Vec<(Now, Now)> = starts.iter().filter_map(|x| *x.lock().unwrap()).collect();
    let a = last.iter().map(|x| x.0).min_by_key(|x| x.0).expect("records");
    let b = last.iter().map(|x| x.1).max_by_key(|x| x.0).expect("records");
    let ok = idle(&s, a, b, "the last records of several threads")?;
    if ok {
        c.eval();
        c.count("idle times judged", 1);
    }
    c.sig(&[4, nt as u64, seeds[0] % 64]);
    Ok(())
}

/// Idle times queried while threads record: the time stamp seen is never older than the
/// oldest of the threads' last records.
fn idle_concurrent(c: &mut Case) -> CaseResult {
    let s = AtomicTrafficStats::new();
    let base = now();
    let nt = c.rng.range(1, 5);
    let span = Duration::from_millis(if c.thorough() { 400 } else { 150 });
    let us = |n: &Now| n.0.duration_since(base.0).as_micros() as u64;
    // when each thread's last completed record began
    let began: Vec<AtomicU64> = (0..nt).map(|_| AtomicU64::new(0)).collect();
    let bar = Barrier::new(nt + 2);
    let (asked, skipped) = (AtomicU64::new(0), AtomicU64::new(0));
    let mut jobs: Vec<Box<dyn FnOnce() -> CaseResult + Send + '_>> = Vec::new();
    for (i, b) in began.iter().enumerate() {
        let (s, bar, us) = (&s, &bar, &us);
        jobs.push(Box::new(move || {
            s.record_read(1);
            bar.wait();
            while base.0.elapsed() < span {
                let a = now();
                if i % 2 == 0 {
                    s.record_read(1);
                } else {
                    s.record_write(1);
                }
                b.store(us(&a), SeqCst);
            }
            Ok(())
        }));
    }
    for _ in 0..2 {
        let (s, bar, us, began, asked, skipped) = (&s, &bar, &us, &began, &asked, &skipped);
        jobs.push(Box::new(move || {
            bar.wait();
            while base.0.elapsed() < span {
                let oldest = began.iter().map(|b| b.load(SeqCst)).min().unwrap_or(0);
                let d = s.time_since_last_activity();
                let q = now();
                let hi = Duration::from_micros(us(&q) - oldest) + SLACK;
                if d > hi {
                    if !base.agree(&q) {
                        skipped.fetch_add(1, SeqCst);
                        continue;
                    }
                    vio!(
                        "{nt} threads recording: {} ms since last activity, expected at most {} ms",
                        d.as_millis(),
                        hi.as_millis()
                    );
                }
                asked.fetch_add(1, SeqCst);
            }
            Ok(())
        }));
    }
    crate::run::par(jobs)?;
    let n = asked.load(SeqCst);
    c.evals(n);
    c.count("idle times judged during recording", n);
    c.count("idle times not judged (clocks disagree)", skipped.load(SeqCst));
    c.sig(&[6, nt as u64, n % 64]);
    Ok(())
}

#[cfg(bip324_verif)]
mod session {
    use super::*;
    use crate::net::{net, Seg, R};
    use crate::peer::*;
    use crate::shaped;
    use bip324::io::Payload;

    fn total(w: &shaped::Wire) -> u64 {
        w.garbage.len() as u64
            + w.hs_decoys.iter().map(|n| *n as u64).sum::<u64>()
            + w.session.iter().map(|p| p.1.len() as u64).sum::<u64>()
    }

    fn judge(c: &mut Case, s: &AtomicTrafficStats, out: &[u8], p: &PeerRef, read: u64) -> CaseResult {
        let w = match shaped::wire(out, &take_session(p)) {
            Ok(w) => w,
            Err(e) => vio!("shaped stream does not parse: {e}"),
        };
        let want = total(&w);
        match s.write_read_ratio() {
            None => ensure!(read == 0, "no ratio after {read} content bytes were read by a shaped connection"),
            Some(q) => {
                ensure!(read > 0, "ratio {q} although the shaped connection read no content");
                ensure!(
                    close(q, want as f64 / read as f64),
                    "shaped connection wrote {want} content and garbage bytes ({} garbage, {:?} handshake decoys, {} packets) and read {read}, but its statistics say {:.3} written",
                    w.garbage.len(),
                    w.hs_decoys,
                    w.session.len(),
                    q * read as f64
                );
                c.count("shaped sessions accounted for", 1);
                c.count("background decoys accounted for", w.session.iter().filter(|x| x.0).count() as u64);
            }
        }
        c.eval();
        Ok(())
    }

    fn plan(r: &mut Rng) -> (bip324::Role, bool, bool, PeerCfg, Vec<Pkt>) {
        let role = ROLES[r.below(2)];
        let (padding, decoys) = *r.pick(&shaped::STRATEGIES);
        let mut cfg = PeerCfg::new(r, role);
        let incoming: Vec<Pkt> = (0..r.range(1, 12))
            .map(|i| pkt(*r.pick(&[0u8, 0, 0x80]), &shaped::message(r, i, 2000)))
            .collect();
        cfg.session = incoming.clone();
        (role, padding, decoys, cfg, incoming)
    }

    pub fn threads(c: &mut Case) -> CaseResult {
        let mut r = Rng::new(c.rng.u64());
        let (role, padding, decoys, cfg, incoming) = plan(&mut r);
        let n = net(r.u64());
        {
            let mut g = n.lock().unwrap();
            g.log = false;
            g.rseg = Seg::Random(300);
        }
        let p = attach(&n, cfg, None);
        let (rec, w) = shaped::rec(r.u64(), &n);
        rec.0.lock().unwrap().max_write = *r.pick(&[usize::MAX, 100]);
        let conn = bip324_traffic::io::ShapedProtocol::new(
            MAGIC,
            role,
            shaped::config(padding, decoys),
            R(n.clone()),
            w,
        );
        let mut conn = match conn {
            Ok(x) => x,
            Err(e) => vio!("shaped handshake: {}", err_class(&e)),
        };
        let s = conn.verif_stats();
        let mut read = 0u64;
        let mut reads = 0;
        for i in 0..r.range(1, 12) {
            let ms = *r.pick(&[0u64, 0, 20, 60, 150]);
            std::thread::sleep(Duration::from_millis(ms));
            let a = now();
            if r.coin() && reads < incoming.len() {
                match conn.read() {
                    Ok(x) => {
                        let x: Payload = x;
                        ensure!(x.contents() == incoming[reads].contents, "shaped read {reads} differs");
                        read += x.contents().len() as u64;
                    }
                    Err(e) => vio!("shaped read: {}", err_class(&e)),
                }
                reads += 1;
            } else {
                let m = shaped::message(&mut r, i, 1500);
                let x = if r.chance(1, 6) { Payload::decoy(m) } else { Payload::genuine(m) };
                if let Err(e) = conn.write(&x) {
                    vio!("shaped write: {}", err_class(&e));
                }
            }
            let last = (a, now());
            if r.coin() {
                std::thread::sleep(Duration::from_millis(r.below(40) as u64));
                // decoys are activity as well
                let b = if decoys { now() } else { last.1 };
                if idle(&*s, last.0, b, "the last call on a shaped connection")? {
                    c.count("idle times of shaped connections judged", 1);
                }
            }
        }
        std::thread::sleep(Duration::from_millis(r.below(400) as u64));
        drop(conn);
        let out = rec.0.lock().unwrap().out.clone();
        judge(c, &s, &out, &p, read)?;
        c.sig(&[5, padding as u64, decoys as u64, read, out.len() as u64]);
        Ok(())
    }

    /// Nothing but a handshake and one packet each way: every garbage length there is gets its
    /// turn.
    pub fn handshakes(c: &mut Case) -> CaseResult {
        let mut r = Rng::new(c.rng.u64());
        let role = ROLES[r.below(2)];
        let (padding, decoys) = (c.idx % 4 != 3, c.idx % 2 == 1);
        let mut cfg = PeerCfg::new(&mut r, role);
        cfg.session = vec![pkt(0, &[7; 50])];
        let n = net(r.u64());
        {
            let mut g = n.lock().unwrap();
            g.log = false;
            g.starve_pending = true;
        }
        let p = attach(&n, cfg, None);
        let (rec, w) = shaped::rec(r.u64(), &n);
        let rt = shaped::runtime();
        let rec2 = rec.clone();
        let res: Result<(Arc<AtomicTrafficStats>, u64), Fail> = rt.block_on(async move {
            let config = shaped::config(padding, decoys);
            let conn = bip324_traffic::futures::ShapedProtocol::new(MAGIC, role, config, R(n.clone()), w);
            let mut conn = match conn.await {
                Ok(x) => x,
                Err(e) => vio!("shaped handshake: {}", err_class(&e)),
            };
            let s = conn.verif_stats();
            match conn.read().await {
                Ok(x) => ensure!(x.contents() == [7; 50], "shaped read differs"),
                Err(e) => vio!("shaped read: {}", err_class(&e)),
            }
            drop(conn);
            shaped::settle(&rec2, 1000).await;
            Ok((s, 50))
        });
        let (s, read) = res?;
        let out = rec.0.lock().unwrap().out.clone();
        judge(c, &s, &out, &p, read)?;
        c.sig(&[7, padding as u64, decoys as u64, out.len() as u64]);
        Ok(())
    }

    pub fn every_length(c: &mut Case) -> CaseResult {
        let mut r = Rng::new(c.rng.u64());
        let x = shaped::sweep(&mut r, c.idx)?;
        judge(c, &x.stats, &x.out, &x.peer, x.read)?;
        c.count("lengths swept", x.sent.len() as u64);
        c.sig(&[8, c.idx, x.read]);
        Ok(())
    }

    pub fn tasks(c: &mut Case) -> CaseResult {
        let mut r = Rng::new(c.rng.u64());
        let (role, padding, decoys, cfg, incoming) = plan(&mut r);
        let n = net(r.u64());
        {
            let mut g = n.lock().unwrap();
            g.log = false;
            g.rseg = Seg::Random(300);
            g.starve_pending = true;
        }
        let p = attach(&n, cfg, None);
        let (rec, w) = shaped::rec(r.u64(), &n);
        let rt = shaped::runtime();
        let seed = r.u64();
        let rec2 = rec.clone();
        let res: Result<(Arc<AtomicTrafficStats>, u64), Fail> = rt.block_on(async move {
            let mut r = Rng::new(seed);
            let conn = bip324_traffic::futures::ShapedProtocol::new(
                MAGIC,
                role,
                shaped::config(padding, decoys),
                R(n.clone()),
                w,
            )
            .await;
            let mut conn = match conn {
                Ok(x) => x,
                Err(e) => vio!("shaped handshake: {}", err_class(&e)),
            };
            let s = conn.verif_stats();
            let mut read = 0u64;
            let mut reads = 0;
            for i in 0..r.range(1, 30) {
                let ms = *r.pick(&[0u64, 0, 60, 700]);
                tokio::time::sleep(Duration::from_millis(ms)).await;
                if r.coin() && reads < incoming.len() {
                    match conn.read().await {
                        Ok(x) => {
                            ensure!(x.contents() == incoming[reads].contents, "shaped read {reads} differs");
                            read += x.contents().len() as u64;
                        }
                        Err(e) => vio!("shaped read: {}", err_class(&e)),
                    }
                    reads += 1;
                } else {
                    let m = shaped::message(&mut r, i, 1500);
                    let x = if r.chance(1, 6) { Payload::decoy(m) } else { Payload::genuine(m) };
                    if let Err(e) = conn.write(&x).await {
                        vio!("shaped write: {}", err_class(&e));
                    }
                }
            }
            drop(conn);
            shaped::settle(&rec2, 1000).await;
            Ok((s, read))
        });
        let (s, read) = res?;
        let out = rec.0.lock().unwrap().out.clone();
        judge(c, &s, &out, &p, read)?;
        c.sig(&[6, padding as u64, decoys as u64, read, out.len() as u64]);
        Ok(())
    }
}

pub fn suite(tier: Tier) -> Suite {
    #[allow(unused_mut)]
    let mut s = Suite {
        id: "C17",
        level: "exploration",
        rule: "a case is one history of recorded activities (or one shaped session) with every query judged against the harness's own totals and clocks; distinct by threads, sizes, mix and totals",
        assumptions: vec![
            "totals below 2^63",
            "while threads record at the same time, the last activity is one of the last records of these threads",
            "idle times are judged within 4 ms and only while wall clock and monotonic clock agree",
            "shaped sessions are accounted for when all writes succeeded and the writer was dropped",
        ],
        families: vec![
            fam("threads", t(tier, 150, 2000), threads),
            fam("histories", t(tier, 2000, 100_000), histories),
            sleepy("idle_times", t(tier, 256, 4000), 600, idle_times),
            sleepy("idle_threads", t(tier, 64, 1000), 600, idle_threads),
            fam("idle_concurrent", t(tier, 64, 2000), idle_concurrent),
        ],
        require: vec![
            "activities recorded concurrently",
            "queries during recording",
            "ratio queries judged exactly",
            "idle times judged",
            "idle times judged during recording",
        ],
    };
    #[cfg(bip324_verif)]
    {
        use crate::shaped;
        s.families.push(sleepy("shaped_threads", t(tier, 192, 3000), 1200, session::threads));
        s.families.push(fam("shaped_handshakes", t(tier, 30_000, 300_000), session::handshakes));
        s.families.push(fam("shaped_tasks", t(tier, 1500, 40_000), session::tasks));
        s.families.push(fam("shaped_every_length", t(tier, 8, 160) * shaped::sweep_slices(), session::every_length));
        s.require.push("lengths swept");
        s.require.push("shaped sessions accounted for");
        s.require.push("background decoys accounted for");
        s.require.push("idle times of shaped connections judged");
    }
    s
}
