"""C23: the same exhaustive set of histories in every feature combination and both profiles."""
import itertools, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

FEATURES = ["std", "ringbuffer", "refpool", "arbitrary"]
PROFILES = ["checked", "release"]
COMBOS = sorted((list(c) for n in range(5) for c in itertools.combinations(FEATURES, n)), key=lambda c: -len(c))

def label(combo):
    return "+".join(combo) or "none"

def build_combo(run, combo, prof):
    """-> (binary or None, compiler output)"""
    target = os.path.join(run.TARGET, "cfg", label(combo))
    crate = os.path.join(run.VERIF, "mc")
    run.fresh(target, crate, prof)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--profile", prof, "--target-dir", target, "--no-default-features",
                        "--features", " ".join(combo), "--bin", "c23", "-j", "2"],
                       cwd=crate, env=run.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (os.path.join(target, prof, "c23") if r.returncode == 0 else None), r.stdout

def build_probe(run):
    crate, target = os.path.join(run.VERIF, "nostd"), os.path.join(run.TARGET, "nostd")
    run.fresh(target, crate, "release")
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--release", "--target-dir", target],
                       cwd=crate, env=run.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout

def build_all(run):
    with ThreadPoolExecutor(8) as ex:
        jobs = {(label(c), p): ex.submit(build_combo, run, c, p) for p in PROFILES for c in COMBOS}
        probe = ex.submit(build_probe, run)
        return {k: f.result() for k, f in jobs.items()}, probe.result()

def c23_prebuild(run):
    build_all(run)

def errors(text):
    """rustc diagnostics; empty when the failure is not the compiler's verdict on the source"""
    if "signal:" in text or "No space left" in text or "could not compile" not in text:
        return ""
    ls = text.splitlines()
    i = next((i for i, l in enumerate(ls) if l.startswith("error")), None)
    return "" if i is None else " ".join(x.strip() for x in ls[i:i + 6])[:500]

def run_one(run, binary, prof, lab, tier, timeout):
    progress = os.path.join(run.WORK, f"progress.C23.{os.getpid()}.{prof}.{lab}")
    out = progress + ".json"
    st, rc, slots, text = run.supervise([binary, "--tier", tier, "--out", out, "--progress", progress, "--threads", "4"], progress, timeout)
    try:
        if st == "exit" and rc in (0, 1):
            return json.load(open(out)), None
        if st == "timeout":
            raise run.CheckError(f"{binary}: not finished after {timeout} s")
        if st == "exit" and rc == -9:
            raise run.CheckError(f"{binary} was killed (memory?)")
        return None, (f"{st} {rc}", run.active(slots), text[-300:])
    finally:
        for p in (progress, progress + ".log", out):
            if os.path.exists(p):
                os.remove(p)

def trace(run, binary, tier, idx):
    f = os.path.join(run.WORK, f"trace.{os.getpid()}")
    try:
        subprocess.run([binary, "--tier", tier, "--part", f, "--only", f"{idx},0,0"], env=run.env(), timeout=120,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return open(f, errors="replace").read().splitlines() if os.path.exists(f) else []
    except subprocess.TimeoutExpired:
        return []
    finally:
        if os.path.exists(f):
            os.remove(f)

def c23(run, pid, tier):
    violations = []
    built, (probe_ok, probe_text) = build_all(run)
    base = (label(FEATURES), "checked")
    if built[base][0] is None:
        raise run.CheckError("build with all features failed:\n" + built[base][1][-3000:])
    for (lab, prof), (b, text) in built.items():
        if b is None:
            e = errors(text)
            if not e:
                raise run.CheckError(f"build of {lab} ({prof}) failed:\n{text[-3000:]}")
            violations.append(dict(case=f"build with features {lab} ({prof})", detail=e, profile=prof))
    if not probe_ok:
        e = errors(probe_text)
        if not e:
            raise run.CheckError("build of the no_std probe failed:\n" + probe_text[-3000:])
        violations.append(dict(case="program without the standard library, crate without the std feature", detail=e, profile="release"))
    ok = {k: b for k, (b, _) in built.items() if b}
    with ThreadPoolExecutor(4) as ex:
        fs = {k: ex.submit(run_one, run, b, k[1], k[0], tier, 400 if tier == "quick" else 3 * 3600) for k, b in ok.items()}
        res = {k: f.result() for k, f in fs.items()}
    crashed = {k: r[1] for k, r in res.items() if r[0] is None}
    if len(crashed) == len(res):
        raise run.CheckError(f"every configuration crashes: {list(crashed.items())[0]}")
    for k, (st, act, text) in list(crashed.items())[:3]:
        violations.append(dict(case=f"histories with features {k[0]} ({k[1]})", profile=k[1],
                               detail=f"the process ended by {st} here and not in every configuration, jobs in progress {act[:4]}: {text}"))
    good = {k: r[0] for k, r in res.items() if r[0]}
    ref_k = base if base in good else next(iter(good))
    ref = {n: (i, d) for i, (n, d) in enumerate(good[ref_k]["digests"])}
    compared, bad = 0, {}
    for k, r in good.items():
        for i, (n, d) in enumerate(r["digests"]):
            if n not in ref:
                continue
            compared += 1
            if d != ref[n][1]:
                bad.setdefault(n, []).append((k, i))
    for n, ks in list(bad.items())[:3]:
        k, i = ks[0]
        a, b = trace(run, ok[ref_k], tier, ref[n][0]), trace(run, ok[k], tier, i)
        j = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        what = b[j].split(" ", 1)[-1] if j < len(b) else "?"
        violations.append(dict(case=f"{n}: {what[:400]}", profile=k[1],
                               detail=f"behaves differently with features {ref_k[0]} ({ref_k[1]}) and {k[0]} ({k[1]}); differing configurations: "
                                      + ", ".join(f"{c[0]} ({c[1]})" for c, _ in ks)[:300]))
    full = good[ref_k]
    cov = dict(states=full["counters"].get("states", 0), transitions=sum(r["counters"].get("transitions", 0) for r in good.values()),
               traces_validated_against_impl=sum(r["counters"].get("traces", 0) for r in good.values()),
               samples=full["samples"][:6] + [f"configuration {k[0]} ({k[1]})" for k in list(good)[:4]],
               exhaustive=len(good) == len(built), configurations=len(good), jobs_compared=compared,
               explanation="16 feature combinations x 2 profiles; transitions and traces are summed over the configurations, each of which executes the "
                           "same exhaustively enumerated histories; every job's digest of results, panics and contents is compared with the all-features one.")
    return cov, violations
