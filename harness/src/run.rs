//! Case runner: seeded cases on a thread pool, three-valued verdicts, evidence and replay files.

use crate::util::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is broken: the message says what was observed.
    Violation(String),
    /// The machinery could not decide (never reported as a violation).
    Inconclusive(String),
}
pub type CaseResult = Result<(), Fail>;

#[macro_export]
macro_rules! vio {
    ($($a:tt)*) => { return Err($crate::run::Fail::Violation(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::run::Fail::Violation(format!($($a)*))) } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Local {
    pub evals: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
}

thread_local! {
    static CASE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// Identifies the case running on this thread.
pub fn case_hash() -> u64 {
    CASE.with(|x| x.get())
}

pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub n: u64,
    pub tier: Tier,
    pub local: &'a mut Local,
    pub family: &'static str,
}

impl<'a> Case<'a> {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// One oracle evaluation.
    pub fn eval(&mut self) {
        self.local.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.local.evals += n;
    }
    /// Register a distinct situation that was judged.
    pub fn sig(&mut self, parts: &[u64]) {
        let mut h = hash_str(self.family);
        for p in parts {
            h = mix(h, *p);
        }
        if self.local.sigs.len() < 2_000_000 {
            self.local.sigs.insert(h);
        }
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.local.counters.entry(name).or_insert(0) += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.local.samples.len() < 2 {
            let s = format!("[{}#{}] {}", self.family, self.idx, f());
            self.local.samples.push(s);
        }
    }
}

pub type CaseFn = Box<dyn Fn(&mut Case) -> CaseResult + Send + Sync>;

pub struct Family {
    pub name: &'static str,
    pub n: u64,
    /// Cases that mostly sleep run on their own, larger set of threads.
    pub sleepy: bool,
    /// CPU seconds one case may use before it counts as not terminating.
    pub cpu_limit: u64,
    /// For sleepy cases: check intervals (100 ms heartbeats) one case may take.
    pub beat_limit: u64,
    pub f: CaseFn,
}

pub fn fam(
    name: &'static str,
    n: u64,
    f: impl Fn(&mut Case) -> CaseResult + Send + Sync + 'static,
) -> Family {
    Family {
        name,
        n,
        sleepy: false,
        cpu_limit: 150,
        beat_limit: 0,
        f: Box::new(f),
    }
}

pub fn sleepy(
    name: &'static str,
    n: u64,
    beat_limit: u64,
    f: impl Fn(&mut Case) -> CaseResult + Send + Sync + 'static,
) -> Family {
    Family {
        name,
        n,
        sleepy: true,
        cpu_limit: 150,
        beat_limit,
        f: Box::new(f),
    }
}

pub struct Suite {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub families: Vec<Family>,
    /// Counters which must be non-zero, or the run decided nothing.
    pub require: Vec<&'static str>,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Message prefix of panics raised by harness monitors to report a violation from inside a
/// callback of the code under test.
pub const MONITOR: &str = "VH-MONITOR: ";
pub const HARNESS: &str = "VH-HARNESS: ";

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let bg = std::thread::current()
            .name()
            .map(|n| !n.starts_with("vh-"))
            .unwrap_or(true);
        if bg && !msg.starts_with(HARNESS) {
            // A background thread of the code under test (or of the main thread).
            BACKGROUND.lock().unwrap().push((loc.clone(), msg.clone()));
        }
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

static BACKGROUND: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

fn is_harness_loc(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/")
}

pub fn classify_panic(loc: String, msg: String) -> Fail {
    if let Some(m) = msg.strip_prefix(MONITOR) {
        Fail::Violation(m.to_string())
    } else if msg.starts_with(HARNESS) || is_harness_loc(&loc) {
        Fail::Inconclusive(format!("harness panic at {loc}: {msg}"))
    } else {
        Fail::Violation(format!("panic at {loc}: {msg}"))
    }
}

/// Run `f`, turning a panic into a verdict.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (l, m) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| ("?".into(), "?".into()));
            Err(classify_panic(l, m))
        }
    }
}

struct Slot {
    cur: Mutex<Option<(usize, u64, Instant, u64)>>, // family, idx, start, beat at start
    clock: Mutex<Option<libc::clockid_t>>,
    cpu_at_start: AtomicU64,
}

fn cpu_ms(c: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe { libc::clock_gettime(c, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

fn my_clock() -> libc::clockid_t {
    let mut c: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
    c
}

pub struct Options {
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<(String, u64)>,
    pub scale: f64,
    pub evidence: Option<String>,
    pub replay_dir: String,
    pub known: String,
    pub soft_limit_s: u64,
    pub hooks: bool,
    pub quiet: bool,
}

pub struct Outcome {
    pub violations: Vec<(String, u64, String)>,
    pub inconclusive: Vec<String>,
    pub evals: u64,
    pub distinct: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub per_family: BTreeMap<&'static str, u64>,
    pub planned: u64,
    pub executed: u64,
    pub wall: f64,
}

pub fn execute(suite: &Suite, o: &Options) -> Outcome {
    let start = Instant::now();
    let fams = Arc::new(&suite.families);
    let mut work_cpu = Vec::new();
    let mut work_sleep = Vec::new();
    for (fi, f) in suite.families.iter().enumerate() {
        let n = ((f.n as f64 * o.scale).ceil() as u64).max(1);
        for i in 0..n {
            if let Some((of, oi)) = &o.only {
                if of != f.name || *oi != i {
                    continue;
                }
            }
            if f.sleepy {
                work_sleep.push((fi, i, n));
            } else {
                work_cpu.push((fi, i, n));
            }
        }
    }
    if let Some((of, oi)) = &o.only {
        // allow indexes beyond the planned count
        if work_cpu.is_empty() && work_sleep.is_empty() {
            if let Some(fi) = suite.families.iter().position(|f| f.name == of) {
                work_cpu.push((fi, *oi, suite.families[fi].n));
            }
        }
    }
    // Interleave the families so that a cut-off run has covered all of them.
    let mut r = Rng::new(mix(o.seed, 0xabcdef));
    for i in (1..work_cpu.len()).rev() {
        let j = r.below(i + 1);
        work_cpu.swap(i, j);
    }
    let planned = (work_cpu.len() + work_sleep.len()) as u64;
    let ncpu = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4);
    let stop = Arc::new(AtomicBool::new(false));
    let beats = Arc::new(AtomicU64::new(0));
    let total = Mutex::new(Local::default());
    let per_family: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let fails: Mutex<Vec<(usize, u64, Fail)>> = Mutex::new(Vec::new());
    let executed = AtomicU64::new(0);
    let n_sleep_threads = work_sleep.len().min(64);
    let n_cpu_threads = work_cpu.len().min(ncpu);
    let slots: Vec<Arc<Slot>> = (0..n_sleep_threads + n_cpu_threads)
        .map(|_| {
            Arc::new(Slot {
                cur: Mutex::new(None),
                clock: Mutex::new(None),
                cpu_at_start: AtomicU64::new(0),
            })
        })
        .collect();
    let next_cpu = AtomicUsize::new(0);
    let next_sleep = AtomicUsize::new(0);
    let live_workers = Arc::new(AtomicUsize::new(slots.len()));
    // Watchdog thread: heartbeats and per-case limits.
    let (hang_tx, hang_rx) = std::sync::mpsc::channel::<(usize, u64, String)>();
    let wd_slots = slots.clone();
    let wd_live = live_workers.clone();
    let wd_beats = beats.clone();
    let limits: Vec<(u64, u64)> = suite
        .families
        .iter()
        .map(|f| (f.cpu_limit, f.beat_limit))
        .collect();
    let names: Vec<&'static str> = suite.families.iter().map(|f| f.name).collect();
    let wd = std::thread::Builder::new()
        .name("vh-watchdog".into())
        .spawn(move || {
            while wd_live.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(100));
                let b = wd_beats.fetch_add(1, Ordering::SeqCst) + 1;
                for s in &wd_slots {
                    let cur = *s.cur.lock().unwrap();
                    if let (Some((fi, idx, _st, b0)), Some(c)) = (cur, *s.clock.lock().unwrap()) {
                        let used =
                            cpu_ms(c).saturating_sub(s.cpu_at_start.load(Ordering::SeqCst)) / 1000;
                        if limits[fi].0 > 0 && used > limits[fi].0 {
                            let _ = hang_tx.send((
                                fi,
                                idx,
                                format!(
                                    "{}#{idx} did not terminate: {used} s of CPU time in one case",
                                    names[fi]
                                ),
                            ));
                            return;
                        }
                        if (limits[fi].1 > 0 && b - b0 > limits[fi].1)
                            || (limits[fi].1 == 0 && b - b0 > 1800 && used < 2)
                        {
                            let _ = hang_tx.send((
                                fi,
                                idx,
                                format!(
                                    "{}#{idx} made no progress for {} check intervals (blocked)",
                                    names[fi],
                                    b - b0
                                ),
                            ));
                            return;
                        }
                    }
                }
            }
        })
        .unwrap();
    let mut hang: Option<(usize, u64, String)> = None;
    std::thread::scope(|sc| {
        for (si, slot) in slots.iter().enumerate() {
            let is_sleep = si < n_sleep_threads;
            let work = if is_sleep { &work_sleep } else { &work_cpu };
            let next = if is_sleep { &next_sleep } else { &next_cpu };
            let (fams, stop, total, fails, executed, per_family, beats, live) = (
                &fams, &stop, &total, &fails, &executed, &per_family, &beats, &live_workers,
            );
            let o = &*o;
            let slot = slot.clone();
            let soft = Duration::from_secs(o.soft_limit_s);
            std::thread::Builder::new()
                .name(format!("vh-{si}"))
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    *slot.clock.lock().unwrap() = Some(my_clock());
                    let mut local = Local::default();
                    let mut pf: BTreeMap<&'static str, u64> = BTreeMap::new();
                    loop {
                        if stop.load(Ordering::SeqCst) || start.elapsed() > soft {
                            break;
                        }
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= work.len() {
                            break;
                        }
                        let (fi, idx, n) = work[k];
                        let f = &fams[fi];
                        slot.cpu_at_start
                            .store(cpu_ms(my_clock()), Ordering::SeqCst);
                        *slot.cur.lock().unwrap() =
                            Some((fi, idx, Instant::now(), beats.load(Ordering::SeqCst)));
                        let keep = local.samples.len();
                        CASE.with(|x| x.set(mix(o.seed ^ idx, hash_str(f.name))));
                        let mut case = Case {
                            rng: Rng::new(mix(mix(o.seed, hash_str(f.name)), idx)),
                            idx,
                            n,
                            tier: o.tier,
                            local: &mut local,
                            family: f.name,
                        };
                        let t0 = Instant::now();
                        let r = match guarded(|| (f.f)(&mut case)) {
                            Ok(r) => r,
                            Err(f) => Err(f),
                        };
                        if std::env::var_os("VH_TRACE").is_some() {
                            eprintln!("{}#{idx} {:?} {:?}", f.name, t0.elapsed(), r.is_ok());
                        }
                        let _ = keep;
                        *slot.cur.lock().unwrap() = None;
                        *pf.entry(f.name).or_insert(0) += 1;
                        executed.fetch_add(1, Ordering::SeqCst);
                        if let Err(e) = r {
                            let mut fl = fails.lock().unwrap();
                            if matches!(e, Fail::Violation(_)) {
                                stop.store(true, Ordering::SeqCst);
                            }
                            fl.push((fi, idx, e));
                        }
                    }
                    let mut t = total.lock().unwrap();
                    t.evals += local.evals;
                    for (k, v) in local.counters {
                        *t.counters.entry(k).or_insert(0) += v;
                    }
                    t.sigs.extend(local.sigs);
                    t.samples.extend(local.samples);
                    let mut p = per_family.lock().unwrap();
                    for (k, v) in pf {
                        *p.entry(k).or_insert(0) += v;
                    }
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // Wait for completion or for the watchdog.
        loop {
            if live_workers.load(Ordering::SeqCst) == 0 {
                break;
            }
            match hang_rx.recv_timeout(Duration::from_millis(50)) {
                Ok(h) => {
                    hang = Some(h);
                    break;
                }
                Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => {
                    std::thread::sleep(Duration::from_millis(5));
                }
                Err(_) => {}
            }
        }
        if let Some((fi, idx, m)) = &hang {
            // The worker cannot be stopped: report from here and leave.
            let mut out = collect(
                suite,
                Vec::new(),
                Local::default(),
                BTreeMap::new(),
                planned,
                executed.load(Ordering::SeqCst),
                start,
            );
            if let Ok(t) = total.lock() {
                out.evals = t.evals;
            }
            out.violations
                .push((suite.families[*fi].name.to_string(), *idx, m.clone()));
            let code = report(suite, o, &out);
            std::io::stdout().flush().ok();
            std::process::exit(code);
        }
    });
    let _ = wd.join();
    let fails = fails.into_inner().unwrap();
    let total = total.into_inner().unwrap();
    let mut out = collect(
        suite,
        fails,
        total,
        per_family.into_inner().unwrap(),
        planned,
        executed.load(Ordering::SeqCst),
        start,
    );
    for (loc, msg) in BACKGROUND.lock().unwrap().drain(..) {
        match classify_panic(loc, msg) {
            Fail::Violation(m) => {
                out.violations
                    .push(("background".into(), 0, format!("background thread: {m}")))
            }
            Fail::Inconclusive(m) => out.inconclusive.push(m),
        }
    }
    out
}

#[allow(clippy::too_many_arguments)]
fn collect(
    suite: &Suite,
    fails: Vec<(usize, u64, Fail)>,
    total: Local,
    per_family: BTreeMap<&'static str, u64>,
    planned: u64,
    executed: u64,
    start: Instant,
) -> Outcome {
    let mut violations = Vec::new();
    let mut inconclusive = Vec::new();
    for (fi, idx, f) in fails {
        let n = suite.families[fi].name.to_string();
        match f {
            Fail::Violation(m) => violations.push((n, idx, m)),
            Fail::Inconclusive(m) => inconclusive.push(format!("{n}#{idx}: {m}")),
        }
    }
    let mut samples = total.samples;
    // one or two samples per family
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    samples.retain(|s| {
        let k = s.split('#').next().unwrap_or("").to_string();
        let c = seen.entry(k).or_insert(0);
        *c += 1;
        *c <= 2
    });
    samples.truncate(24);
    Outcome {
        violations,
        inconclusive,
        evals: total.evals,
        distinct: total.sigs.len() as u64,
        counters: total.counters,
        samples,
        per_family,
        planned,
        executed,
        wall: start.elapsed().as_secs_f64(),
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Print the verdict, write replays and evidence; returns the exit code.
pub fn report(suite: &Suite, o: &Options, out: &Outcome) -> i32 {
    let known = std::fs::read_to_string(&o.known).unwrap_or_default();
    let mut code = 0;
    let mut reported = 0;
    let mut known_hits: Vec<&str> = Vec::new();
    for (fam, idx, msg) in &out.violations {
        let k = known.lines().find(|l| {
            // "finding: property=<id> match=<substring of the message> -- <description>"
            l.strip_prefix("finding: ")
                .and_then(|r| r.strip_prefix(&format!("property={} match=", suite.id)))
                .and_then(|r| r.split(" -- ").next())
                .map(|m| !m.trim().is_empty() && msg.contains(m.trim()))
                .unwrap_or(false)
        });
        if let Some(k) = k {
            if !known_hits.contains(&k) {
                known_hits.push(k);
                println!(
                    "KNOWN-FINDING: property={} {}",
                    suite.id,
                    k.split(" -- ").nth(1).unwrap_or(msg)
                );
            }
            continue;
        }
        reported += 1;
        code = 1;
        if reported > 5 {
            continue;
        }
        let _ = std::fs::create_dir_all(&o.replay_dir);
        let path = format!("{}/{}-{}-{}.json", o.replay_dir, suite.id, fam, idx);
        let body = format!(
            "{{\"property\": {}, \"family\": {}, \"index\": {}, \"seed\": {}, \"tier\": {}, \"observed\": {}, \"replay\": \"/verif/check.sh {} --replay {}\"}}\n",
            jstr(suite.id),
            jstr(fam),
            idx,
            o.seed,
            jstr(if o.tier == Tier::Quick { "quick" } else { "thorough" }),
            jstr(msg),
            suite.id,
            path
        );
        let _ = std::fs::write(&path, body);
        println!("observed: [{fam}#{idx}] {msg}");
        println!("VIOLATION property={} replay={}", suite.id, path);
    }
    for m in out.inconclusive.iter().take(5) {
        println!("INCONCLUSIVE property={} {}", suite.id, m);
    }
    let mut missing = Vec::new();
    if o.only.is_none() && code == 0 {
        for r in &suite.require {
            if out.counters.get(r).copied().unwrap_or(0) == 0 {
                missing.push(*r);
            }
        }
        if !missing.is_empty() {
            println!(
                "INCONCLUSIVE property={} nothing observed for: {}",
                suite.id,
                missing.join(", ")
            );
        }
    }
    if let Some(ev) = &o.evidence {
        let mut j = String::new();
        j.push_str(&format!(
            "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": {},\n",
            jstr(suite.id),
            jstr(if o.tier == Tier::Quick { "quick" } else { "thorough" }),
            o.seed,
            jstr(suite.level)
        ));
        j.push_str(&format!(
            "  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n",
            out.evals,
            out.distinct,
            jstr(suite.rule)
        ));
        j.push_str(&format!(
            "    \"cases_planned\": {},\n    \"cases_executed\": {},\n    \"hooks_enabled\": {},\n    \"inconclusive\": {},\n",
            out.planned, out.executed, o.hooks, out.inconclusive.len()
        ));
        j.push_str("    \"cases_per_family\": {");
        j.push_str(
            &out.per_family
                .iter()
                .map(|(k, v)| format!("{}: {}", jstr(k), v))
                .collect::<Vec<_>>()
                .join(", "),
        );
        j.push_str("},\n    \"observed\": {");
        j.push_str(
            &out.counters
                .iter()
                .map(|(k, v)| format!("{}: {}", jstr(k), v))
                .collect::<Vec<_>>()
                .join(", "),
        );
        j.push_str("},\n    \"samples\": [");
        j.push_str(
            &out.samples
                .iter()
                .map(|s| jstr(s))
                .collect::<Vec<_>>()
                .join(",\n      "),
        );
        j.push_str("]\n  },\n  \"assumptions\": [");
        j.push_str(
            &suite
                .assumptions
                .iter()
                .map(|s| jstr(s))
                .collect::<Vec<_>>()
                .join(", "),
        );
        j.push_str(&format!(
            "],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
            out.wall, reported
        ));
        let _ = std::fs::write(ev, j);
    }
    if !o.quiet {
        println!(
            "{} property={} cases={}/{} evaluations={} distinct={} wall={:.1}s",
            if code == 1 {
                "VIOLATED"
            } else if !out.inconclusive.is_empty() || !missing.is_empty() {
                "INCONCLUSIVE"
            } else {
                "HELD"
            },
            suite.id,
            out.executed,
            out.planned,
            out.evals,
            out.distinct,
            out.wall
        );
    }
    if code == 0 && (!out.inconclusive.is_empty() || !missing.is_empty()) {
        code = 2;
    }
    code
}

/// Run jobs on their own threads; a panic or failure in any of them is the verdict.
pub fn par(jobs: Vec<Box<dyn FnOnce() -> CaseResult + Send + '_>>) -> CaseResult {
    let mut results = Vec::new();
    std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .into_iter()
            .map(|j| {
                std::thread::Builder::new()
                    .name("vh-job".into())
                    .spawn_scoped(sc, move || guarded(j))
                    .unwrap()
            })
            .collect();
        for h in hs {
            results.push(h.join());
        }
    });
    let mut worst = Ok(());
    for r in results {
        let r = match r {
            Ok(Ok(r)) => r,
            Ok(Err(f)) => Err(f),
            Err(_) => Err(Fail::Inconclusive("job thread lost".into())),
        };
        match (&worst, r) {
            (_, Err(Fail::Violation(m))) if !matches!(worst, Err(Fail::Violation(_))) => {
                worst = Err(Fail::Violation(m))
            }
            (Ok(()), Err(f)) => worst = Err(f),
            _ => {}
        }
    }
    worst
}
