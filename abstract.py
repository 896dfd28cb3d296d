"""C24: the lean explorations of mc/src/ub.rs executed on the abstract machine (Miri, Tree Borrows).
C25: the crossings of mc/src/threads.rs executed in every interleaving on it, with the race detector.
C26: explorations judged by the models (mc/src/targets.rs) executed on abstract machines of other word sizes and byte orders."""
import json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor

PARTS = 24
STALL = 240.0

# C25 judges races only: which references may exist together is C24's, and weak memory would only add executions in which
# the turns of the threads are seen late
# C26 judges values; undefined behaviour the machine happens to meet is reported as well
FLAGS = dict(C24="-Zmiri-tree-borrows -Zmiri-disable-data-race-detector", C25="-Zmiri-disable-stacked-borrows -Zmiri-disable-weak-memory-emulation",
             C26="-Zmiri-disable-stacked-borrows -Zmiri-disable-data-race-detector")
# words of 32 bits, little end first, 64-bit numbers aligned to 4; words of 32 bits, big end first; words of 64 bits, big end first
TARGETS = ["i686-unknown-linux-gnu", "powerpc-unknown-linux-gnu", "s390x-unknown-linux-gnu"]

def setting(run, pid, group="", target=None):
    e = run.env()
    if target:
        e["RUSTFLAGS"] = "-Zmir-opt-level=3 " + e["RUSTFLAGS"]
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-backtrace=0 " + FLAGS[pid]
    if group:
        e[pid + "_ONLY"] = group
    return e

def command(run, pid, target=None):
    return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--release", "--target-dir", os.path.join(run.TARGET, "miri"),
            *(["--target", target] if target else []), "--bin", pid.lower(), "--"]

def build(run, pid, targets=(None,)):
    target, crate = os.path.join(run.TARGET, "miri"), os.path.join(run.VERIF, "mc")
    os.makedirs(target, exist_ok=True)
    stamp, want = os.path.join(target, "stamp"), run.tree_hash()
    if not os.path.exists(stamp) or open(stamp).read() != want:
        subprocess.run(["cargo", "+nightly", "miri", "clean", "--offline", "-p", "sized-chunks", "--release", "--target-dir", target], cwd=crate,
                       env=run.env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        # a folder removed by name, should `cargo clean` not have found it
        for d, ds, fs in os.walk(target):
            for x in fs:
                if x.startswith(("libsized_chunks-", "sized_chunks-")):
                    os.remove(os.path.join(d, x))
        open(stamp, "w").write(want)
    for t in targets:
        r = subprocess.run(command(run, pid, t) + ["--threads", "1"], cwd=crate, env=setting(run, pid, "none", t),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or '"jobs":0' not in r.stdout:
            raise run.CheckError(f"build for the abstract machine ({t or 'host'}) failed:\n" + r.stdout[-3000:])

def prebuild(run):
    build(run, "C24")
    build(run, "C25")
    build(run, "C26", TARGETS)

def error(text):
    m = re.search(r"^error: (.*(?:\n\s+-->.*)?)", text, re.M)
    e = " ".join(m.group(1).split()) if m else text.strip().split("\n")[-1][:200]
    help_ = re.findall(r"^help: (.*(?:\n\s+-->.*)?)", text, re.M)[:2]
    return "; ".join([e] + [" ".join(h.split()) for h in help_])[:700]

def execute(run, pid, name, group, tier, args, timeout, target=None):
    """-> (report or None, None or (what, addresses))"""
    progress = os.path.join(run.WORK, f"progress.{pid}.{os.getpid()}.{name}")
    out = progress + ".json"
    try:
        st, rc, slots, text = run.supervise(command(run, pid, target) + ["--tier", tier, "--out", out, "--progress", progress, "--threads", "1", *args],
                                            progress, timeout, stall=STALL, cwd=os.path.join(run.VERIF, "mc"), environ=setting(run, pid, group, target), keep=4000000)
        if st == "exit" and (rc == 0 or rc == 1 and os.path.exists(out)):
            return json.load(open(out)), None, text
        if st == "timeout":
            raise run.CheckError(f"part {name} not finished after {timeout:.0f} s")
        if st == "hang":
            return None, ("the operation does not return", run.active(slots)), text
        if "Undefined Behavior" in text or "the program aborted" in text:
            return None, (error(text), run.active(slots)), text
        raise run.CheckError(f"part {name}: exit {rc}: {text[-1500:]}")
    finally:
        for p in (progress, progress + ".log", out):
            if os.path.exists(p):
                os.remove(p)

def again(run, pid, group, tier, addr, target=None):
    e = setting(run, pid, target=target)
    return (f"cd {run.VERIF}/mc && {pid}_ONLY={group} RUSTFLAGS='{e['RUSTFLAGS']}' MIRIFLAGS='{e['MIRIFLAGS']}' {' '.join(command(run, pid, target))} "
            f"--tier {tier} --threads 1 --only {','.join(map(str, addr))}")

def machine(target):
    return "abstract machine" + (f" of {target}" if target else "")

def found(run, pid, group, tier, what, addrs, target=None):
    """the case, once more and alone"""
    for a in addrs[:1]:
        args = ["--only", ",".join(map(str, a))]
        rep, second, text = execute(run, pid, "replay", group, tier, args, 300, target)
        case = next((l[5:] for l in text.splitlines() if l.startswith("CASE ")), "")
        cmd = again(run, pid, group, tier, a, target)
        if second:
            return dict(case=case or f"job {a}", detail=second[0], profile=machine(target), cmd=cmd)
        return dict(case=f"{case or a} (only after the cases before it)", detail=what, profile=machine(target))
    return dict(case="before the first case", detail=what, profile=machine(target))

def parts(run, pid, tier, special=None, targets=(None,), each=PARTS):
    build(run, pid, targets)
    timeout = 840 if tier == "quick" else 6 * 3600
    violations, counters, samples, t0, finished = [], {}, [], time.time(), {}
    stop = []
    def part(w):
        if stop:
            return None
        t, k = w
        r = execute(run, pid, f"{t or 'p'}{k}", "", tier, ["--part", f"{k}/{each}"], timeout - (time.time() - t0), t)
        if r[1] or r[0]["violations"]:
            stop.append(w)
        return r
    work = [(t, k) for k in range(each) for t in targets]
    with ThreadPoolExecutor(8) as ex:
        extra = ex.submit(execute, run, pid, special, special, tier, [], timeout) if special else None
        res = list(ex.map(part, work))
    for (t, k), r in zip(work, res):
        if r is None:
            continue
        rep, bad, _ = r
        if bad:
            violations.append(found(run, pid, "", tier, *bad, t))
            continue
        for v in rep["violations"]:
            violations.append(dict(case=v["case"], detail=v["detail"], profile=machine(t), cmd=again(run, pid, "", tier, v["addr"], t)))
        for n, v in rep["counters"].items():
            counters[n] = counters.get(n, 0) + v
        if t:
            finished[t] = finished.get(t, 0) + rep["counters"].get("transitions", 0)
        samples += rep["samples"][:1]
    if finished:
        counters["by target"] = finished
    return violations, counters, samples[:10] or ["none"], not any(r is None or r[1] for r in res), extra and extra.result()

def c24(run, pid, tier):
    violations, counters, samples, whole, (rep, bad, _) = parts(run, pid, tier, "halves")
    if bad:
        violations.append(found(run, pid, "halves", tier, *bad))
    cov = dict(states=counters.get("states", 0), transitions=counters.get("transitions", 0) + counters.get("faults", 0),
               traces_validated_against_impl=counters.get("transitions", 0) + counters.get("faults", 0), samples=samples, exhaustive=whole,
               explanation="every transition runs the implementation itself on the abstract machine (Miri with Tree Borrows), which stops at the first undefined operation")
    return cov, violations

def c25(run, pid, tier):
    violations, counters, samples, whole, (rep, bad, _) = parts(run, pid, tier, "probe")
    if not bad or "Data race" not in bad[0]:
        raise run.CheckError("a container of Rc forced into another thread was not seen to race: the race detector is blind")
    cov = dict(states=counters.get("states", 0), transitions=counters.get("transitions", 0), schedules=counters.get("schedules", 0),
               crossings_refused_by_the_language=counters.get("refused", 0), traces_validated_against_impl=counters.get("schedules", 0),
               samples=samples, exhaustive=whole,
               explanation="every schedule runs the implementation itself in two threads on the abstract machine (Miri with its data race detector); "
                           "the threads take turns in every order through relaxed accesses, which order nothing for the detector")
    return cov, violations

def c26(run, pid, tier):
    violations, counters, samples, whole, _ = parts(run, pid, tier, None, TARGETS, 12)
    cov = dict(states=counters.get("states", 0), transitions=counters.get("transitions", 0), traces_validated_against_impl=counters.get("transitions", 0),
               pairings_of_element_and_host=counters.get("pairings", 0), transitions_by_target=counters.get("by target", {}), samples=samples, exhaustive=whole,
               explanation="every transition runs the implementation itself, compiled for the target, on an abstract machine of that word size and byte order, "
                           "and is compared with the model")
    return cov, violations
