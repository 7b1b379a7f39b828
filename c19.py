#!/usr/bin/env python3
"""C19: run the workloads of the other properties under sanitizers and judge the sanitizers' reports.

Only a report of a sanitizer, or the death of the sanitized process by a fault signal, is a
violation here; behavioural verdicts of the workloads belong to their own properties."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

here, tier, seed, evidence, replays, only = sys.argv[1:7]
HOST = "x86_64-unknown-linux-gnu"
THOROUGH = tier == "thorough"
# Workloads and how much of them: (scale in quick, scale in thorough)
ASAN = {f"C{i:02}": 0.4 for i in range(1, 18)}
# the suites whose quick tier is large by itself
LARGE = {"C01": 20, "C02": 3, "C04": 6, "C05": 5, "C06": 5, "C07": 4, "C08": 5, "C09": 12, "C10": 5, "C11": 25, "C12": 8, "C17": 6}
ASAN.update({"C14": 0.3, "C15": 0.1, "C18": 0.05, "C20": 0.2})
TSAN = {"C03": 0.2, "C07": 0.05, "C08": 0.2, "C10": 0.1, "C12": 0.2, "C13": 0.3, "C14": 0.4, "C15": 0.05, "C16": 0.4, "C17": 0.3, "C18": 0.02, "C20": 0.2}
MSAN = {f"C{i:02}": 0.2 for i in range(1, 18)}
MSAN.update({"C14": 0.2, "C15": 0.05, "C18": 0.02, "C20": 0.1})
for loads in (ASAN, TSAN, MSAN):
    for pid in loads:
        loads[pid] /= LARGE.get(pid, 1)
LANES = {
    "asan": (ASAN, "ASAN_OPTIONS", "detect_leaks=1:exitcode=0:detect_stack_use_after_return=1:check_initialization_order=1"),
    "tsan": (TSAN, "TSAN_OPTIONS", "exitcode=0:halt_on_error=0:detect_deadlocks=0:history_size=4"),
    "msan": (MSAN, "MSAN_OPTIONS", "exitcode=0:halt_on_error=1:print_stats=0"),
}
# Workloads for the interpreter, and the seeds of its scheduler in quick and in thorough
MIRI = {"sync": (1, 12), "shaped": (1, 16), "low": (1, 8), "ashaped": (1, 12), "futures": (1, 12), "stats": (4, 60)}
LIMIT = 3000 if THOROUGH else 420
FACTOR = 12 if THOROUGH else 1
work = tempfile.mkdtemp(prefix="c19-")
start = time.time()
results, lock = [], threading.Lock()


def lane(name):
    loads, var, opts = LANES[name]
    exe = f"{here}/harness/target-{name}/{HOST}/release/vh"
    for at, (pid, scale) in enumerate(loads.items()):
        if only != "*" and only != f"{name}:{pid}":
            continue
        left = LIMIT - (time.time() - start)
        if left < 10:
            with lock:
                results.append(dict(lane=name, pid=pid, rc=None, why="not started: out of time", reports=[]))
            continue
        d = f"{work}/{name}-{pid}"
        os.makedirs(d)
        env = dict(os.environ)
        env[var] = f"{opts}:log_path={d}/report"
        env["UBSAN_OPTIONS"] = f"print_stacktrace=1:log_path={d}/report"
        # every workload may use its share of the time only: it then stops with what it has
        share = 2 * left / (len(loads) - at)
        soft = int(max(5, min(left - 5, share, 240 if THOROUGH else 100)))
        cmd = [exe, pid, "--tier", tier, "--seed", seed, "--scale", str(scale * FACTOR), "--soft", str(soft),
               "--evidence", f"{d}/evidence.json", "--replays", f"{d}/replays", "--known", f"{here}/known-findings.txt"]
        if THOROUGH:
            # the counts of the thorough tier are scaled down, not its depth
            cmd[cmd.index("--scale") + 1] = str(scale * 0.2)
        t = time.time()
        with open(f"{d}/stdout", "w") as so:
            try:
                p = subprocess.run(cmd, env=env, stdout=so, stderr=subprocess.STDOUT, timeout=left, cwd=d)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = None
        reports = []
        for f in sorted(os.listdir(d)):
            if f.startswith("report"):
                txt = open(f"{d}/{f}", errors="replace").read()
                reports += re.findall(r"(?:ERROR|WARNING): \w+Sanitizer.*|.*runtime error:.*", txt)[:20] or [txt[:300]]
        if rc is not None and rc < 0 and -rc in (4, 5, 6, 7, 8, 11, 31):
            tail = open(f"{d}/stdout", errors="replace").read()[-400:]
            reports.append(f"process killed by signal {-rc}: {tail}")
        ev = {}
        try:
            ev = json.load(open(f"{d}/evidence.json"))
        except Exception:
            pass
        with lock:
            results.append(dict(lane=name, pid=pid, rc=rc, why="", reports=reports, dir=d, ev=ev, wall=time.time() - t))


def interpreter(what, nth):
    """One workload in Miri: it reports undefined behaviour of the library's own code that the
    sanitizers have no notion of (aliasing, invalid values, reads of uninitialized memory)."""
    name = f"{what}.{nth}"
    left = LIMIT - (time.time() - start)
    if left < 10:
        with lock:
            results.append(dict(lane="miri", pid=name, rc=None, why="not started: out of time", reports=[]))
        return
    d = f"{work}/miri-{name}"
    os.makedirs(d)
    number = int(seed) * 1000 + nth
    env = dict(os.environ, MIRIFLAGS=f"-Zmiri-disable-isolation -Zmiri-seed={number}", RUSTFLAGS=open(f"{here}/miri/target/hooks").read().strip())
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", f"{here}/miri/target", "--", what, str(number)]
    if THOROUGH:
        cmd.append("deep")
    t = time.time()
    with open(f"{d}/stdout", "w") as so:
        try:
            # a session of its own, so that what times out takes the interpreter along
            p = subprocess.Popen(cmd, env=env, stdout=so, stderr=subprocess.STDOUT, cwd=f"{here}/miri", start_new_session=True)
            rc = p.wait(timeout=min(left, 1500 if THOROUGH else 330))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = None
    txt = open(f"{d}/stdout", errors="replace").read()
    reports = re.findall(r"error: Undefined Behavior:.*|error: memory leaked:.*|.*: Data race detected.*", txt)[:20]
    done = re.search(r"DONE \S+ succeeded=(\d+) refused=(\d+)", txt)
    calls = sum(map(int, done.groups())) if done else 0
    why = "" if done or reports else " ".join(re.findall(r"error: .*|panicked at .*", txt)[:2])
    ev = {"coverage": {"evaluations": calls, "cases_executed": calls, "observed": {"calls completed in the interpreter": calls}, "samples": [done.group(0) if done else why]}}
    with lock:
        results.append(dict(lane="miri", pid=name, rc=rc if done or reports else None, why=why, reports=reports, dir=d, ev=ev, wall=time.time() - t))


def interpreters():
    if not os.path.exists(f"{here}/miri/target/hooks"):
        return
    jobs = [(w, n) for w, counts in MIRI.items() for n in range(counts[THOROUGH]) if only in ("*", f"miri:{w}.{n}")]
    jobs.sort(key=lambda j: j[1])
    at = iter(jobs)
    def work_off():
        while True:
            with lock:
                job = next(at, None)
            if job is None:
                return
            interpreter(*job)
    pool = [threading.Thread(target=work_off) for _ in range(4)]
    for t in pool:
        t.start()
    for t in pool:
        t.join()


threads = [threading.Thread(target=lane, args=(n,)) for n in LANES] + [threading.Thread(target=interpreters)]
for t in threads:
    t.start()
for t in threads:
    t.join()

bad = [r for r in results if r["reports"]]
lost = [r for r in results if not r["reports"] and (r["rc"] is None or r["rc"] not in (0, 1, 2))]
cov = lambda r, k: r.get("ev", {}).get("coverage", {}).get(k, 0)
evals = sum(cov(r, "evaluations") for r in results)
cases = sum(cov(r, "cases_executed") for r in results)
distinct = {}
for r in results:
    distinct[r["pid"]] = max(distinct.get(r["pid"], 0), cov(r, "distinct_nontrivial"))
observed = {}
for r in results:
    for k, v in cov(r, "observed").items() if cov(r, "observed") else []:
        observed[k] = observed.get(k, 0) + v
samples = []
for r in sorted(results, key=lambda r: (r["lane"], r["pid"])):
    s = (cov(r, "samples") or [""])[0]
    samples.append(f"{r['lane']} {r['pid']}: {cov(r, 'cases_executed')} executions in {r.get('wall', 0):.1f} s, {len(r['reports'])} reports; e.g. {s}")
if not evidence == "-":
    json.dump({
        "property": "C19", "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": sum(distinct.values()),
            "rule": "one execution of a case of another property's workload under one sanitizer (AddressSanitizer with LeakSanitizer and trapping UndefinedBehaviorSanitizer for the C part, ThreadSanitizer, MemorySanitizer with an instrumented standard library), or one call of the library completed in the interpreter Miri; distinct by the workload's own rule, counted once over all sanitizers",
            "oracle_evaluations_inside": evals,
            "executions_per_sanitizer": {n: sum(cov(r, "cases_executed") for r in results if r["lane"] == n) for n in [*LANES, "miri"]},
            "workloads": [f"{r['lane']}:{r['pid']}" for r in results if r["rc"] is not None],
            "incomplete": [f"{r['lane']}:{r['pid']} rc={r['rc']} {r['why']}" for r in lost],
            "observed": observed,
            "samples": samples,
        },
        "assumptions": [
            "libsecp256k1's C code and the standard library (thread and memory sanitizers) are instrumented; inline assembly is not",
            "in the interpreter a toy group in Rust stands in for libsecp256k1, all other code is the real one",
            "schedules are those the operating system and tokio produce under the workloads",
        ],
        "wall_s": round(time.time() - start, 3),
        "violations": len(bad),
    }, open(evidence, "w"), indent=1)
code = 0
os.makedirs(replays, exist_ok=True)
seen = set()
for r in bad:
    sig = re.sub(r"0x[0-9a-f]+|\d+", "#", r["reports"][0])[:120]
    if (r["lane"], sig) in seen:
        continue
    seen.add((r["lane"], sig))
    path = f"{replays}/C19-{r['lane']}-{r['pid']}.json"
    keep = f"{replays}/C19-{r['lane']}-{r['pid']}.log"
    with open(keep, "w") as o:
        for f in sorted(os.listdir(r["dir"])):
            if f.startswith("report") or f == "stdout":
                o.write(open(f"{r['dir']}/{f}", errors="replace").read()[:200000])
    json.dump({"property": "C19", "family": f"{r['lane']}:{r['pid']}", "index": 0, "seed": int(seed), "tier": tier,
               "observed": r["reports"][:5], "log": keep, "replay": f"/verif/check.sh C19 --replay {path}"}, open(path, "w"))
    print(f"observed: [{r['lane']}:{r['pid']}] {r['reports'][0][:400]}")
    print(f"VIOLATION property=C19 replay={path}")
    code = 1
for r in lost:
    print(f"INCOMPLETE {r['lane']}:{r['pid']} rc={r['rc']} {r['why']}")
shutil.rmtree(work, ignore_errors=True)
started = [r for r in results if r["rc"] is not None]
if code == 0 and (not started or sum(r["lane"] in LANES for r in lost) * 4 > sum(r["lane"] in LANES for r in results) or cases == 0):
    print("INCONCLUSIVE property=C19 too few workloads completed")
    code = 2
if code == 0:
    print(f"HELD property=C19 executions={cases} workloads={len(started)} wall={time.time() - start:.1f}s")
sys.exit(code)
