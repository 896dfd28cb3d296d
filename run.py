#!/usr/bin/env python3
"""Runs one check:  python3 run.py <property> [quick|thorough]      exit 0 held / 1 VIOLATION / 2 error of the check
   replay:          python3 run.py --replay <file>
   build only:      python3 run.py --build
Builds the explorers from /repo's current tree, runs them under a watchdog, confirms violations by replaying their
case, applies known_findings.jsonl, writes evidence/<property>.json."""
import hashlib, json, mmap, os, resource, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WORK = os.path.join(VERIF, "work")
TARGET = os.path.join(VERIF, "target")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

STALL = 25.0

class CheckError(Exception):
    pass

def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUST_BACKTRACE="0", RUSTFLAGS="--cap-lints warn")
    e.pop("RUSTC_WRAPPER", None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    return e

def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            h.update(open(p, "rb").read())
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    return h.hexdigest()[:16]

def fresh(target, crate_dir, profile):
    """never reuse build output of a different /repo tree, whatever the file times say"""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, f"stamp-{profile}")
    want = tree_hash()
    if not os.path.exists(stamp) or open(stamp).read() != want:
        subprocess.run(["cargo", "clean", "--offline", "-p", "sized-chunks", "--profile", profile, "--target-dir", target], cwd=crate_dir,
                       env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        open(stamp, "w").write(want)

def build(binary, profile, crate="mc", extra=()):
    crate_dir = os.path.join(VERIF, crate)
    target = os.path.join(TARGET, crate)
    fresh(target, crate_dir, profile)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--profile", profile, "--target-dir", target,
                        *([] if binary is None else ["--bin", binary]), *extra],
                       cwd=crate_dir, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError(f"build of {binary} ({profile}) failed:\n" + r.stdout[-4000:])
    return None if binary is None else os.path.join(target, profile, binary)

def limits():
    lim = 12 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setpgid(0, 0)

def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()

def supervise(cmd, progress, timeout, stall=STALL, cwd=None, environ=None, keep=16000):
    """-> (status, returncode, slots, stdout); status: exit | hang | timeout"""
    open(progress, "wb").write(b"\0" * 4096)
    outf = open(progress + ".log", "w+")
    p = subprocess.Popen(cmd, stdout=outf, stderr=subprocess.STDOUT, env=environ or env(), preexec_fn=limits, cwd=cwd)
    mm = mmap.mmap(os.open(progress, os.O_RDONLY), 4096, prot=mmap.PROT_READ)
    def slots():
        return [struct.unpack_from("<8Q", mm, i * 64) for i in range(64)]
    t0 = last = time.time()
    prev = None
    status = "exit"
    while True:
        try:
            p.wait(0.1)
            break
        except subprocess.TimeoutExpired:
            pass
        cur = sum(s[0] for s in slots())
        if cur != prev:
            prev, last = cur, time.time()
        if time.time() - last > stall:
            status = "hang"
            break
        if time.time() - t0 > timeout:
            status = "timeout"
            break
    if status != "exit":
        kill(p)
    outf.seek(0)
    text = outf.read()
    text = text if len(text) <= keep else text[:keep // 2] + text[-keep // 2:]
    outf.close()
    return status, p.returncode, slots(), text

def sgn(x):
    return x - (1 << 64) if x >> 63 else x

def active(slots):
    return [(sgn(s[1]), sgn(s[2]), sgn(s[3])) for s in slots if s[0] and not (sgn(s[1]) == -1)]

def write_replay(pid, n, d):
    os.makedirs(os.path.join(WORK, "replays"), exist_ok=True)
    p = os.path.join(WORK, "replays", f"{pid}-{n}.json")
    json.dump(d, open(p, "w"), indent=1)
    return p

def replay_case(binary, extra, tier, addr, timeout=150):
    """-> (reproduced, description)"""
    progress = os.path.join(WORK, f"progress.{os.getpid()}.r")
    out = os.path.join(WORK, f"out.{os.getpid()}.r.json")
    if os.path.exists(out):
        os.remove(out)
    st, rc, slots, text = supervise([binary, "--tier", tier, "--out", out, "--progress", progress, "--only", ",".join(map(str, addr)),
                                     "--threads", "1", *extra], progress, timeout)
    case = next((l[5:] for l in text.splitlines() if l.startswith("CASE ")), "")
    if st == "hang":
        return True, case, "the operation does not return"
    if st == "timeout":
        return False, case, "timeout"
    if rc < 0 or rc >= 128:
        return True, case, f"the process was ended by signal {-rc if rc < 0 else rc - 128}: " + " ".join(text.split("\n")[-6:])[:400]
    if rc == 1 and os.path.exists(out):
        v = json.load(open(out))["violations"]
        return bool(v), (v[0]["case"] if v else case), (v[0]["detail"] if v else "")
    return False, case, f"exit {rc}"

def run_bin(pid, binary, profile, tier, extra, timeout, threads=8):
    """-> (report, violations[{case,detail,addr,cmd}])"""
    os.makedirs(WORK, exist_ok=True)
    progress = os.path.join(WORK, f"progress.{pid}.{os.getpid()}")
    out = os.path.join(WORK, f"out.{pid}.{os.getpid()}.json")
    base = [binary, "--tier", tier, *extra]
    for attempt in (1, 2):
        if os.path.exists(out):
            os.remove(out)
        st, rc, slots, text = supervise(base + ["--out", out, "--progress", progress, "--threads", str(threads)], progress, timeout)
        if st == "timeout":
            raise CheckError(f"{binary}: not finished after {timeout} s")
        if st == "exit" and rc in (0, 1):
            break
        if st == "exit" and rc == -9:
            raise CheckError(f"{binary} was killed (memory?)")
        if st == "exit" and rc > 1 and rc < 128:
            raise CheckError(f"{binary}: exit {rc}: {text}")
        # crash or hang of the code under test: replay the cases that were being executed
        print(f"{pid}: {profile} explorer ended by {'a hang' if st == 'hang' else 'signal %d' % -rc}; replaying the cases in progress", flush=True)
        for addr in active(slots)[:9]:
            ok, case, detail = replay_case(binary, extra, tier, addr)
            if ok:
                return None, [dict(case=case or f"job {addr[0]}", detail=detail, addr=list(addr))]
        if attempt == 2:
            # crashes every time, but not from one case alone: memory was corrupted by an earlier case of the same thread
            return None, [dict(case="whole exploration (not reproduced by a single case)", detail=f"explorer ended by {st} {rc}: {text[-300:]}", addr=None)]
    rep = json.load(open(out))
    vs = rep["violations"]
    checked = []
    for v in vs[:1]:
        ok, case, detail = replay_case(binary, extra, tier, v["addr"])
        if not ok:
            raise CheckError(f"violation did not reproduce: {v} ({detail})")
    return rep, vs

def known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    return [json.loads(l) for l in open(p) if l.strip()] if os.path.exists(p) else []

def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        for prof in ("checked", "release"):
            build(None, prof)
        for c in CHECKS.values():
            if c.get("prebuild"):
                c["prebuild"](sys.modules[__name__])
        return 0
    if a and a[0] == "--replay":
        d = json.load(open(a[1]))
        print(json.dumps(d, indent=1))
        if d.get("addr") is None:
            print("replay with:", d["cmd"])
            return subprocess.run(d["cmd"], shell=True).returncode
        b = build(d["bin"], d["profile"], d.get("crate", "mc"), d.get("flags", []))
        ok, case, detail = replay_case(b, d["extra"], d["tier"], d["addr"])
        print("case:", case, "\nreproduced:", ok, "\ndetail:", detail)
        return 1 if ok else 0
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[pid]
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        if "custom" in c:
            cov, violations = c["custom"](sys.modules[__name__], pid, tier)
        else:
            cov, violations = standard(pid, c, tier, t0)
    except CheckError as e:
        print(f"ERROR property={pid} {e}")
        return 2
    kf = [k for k in known() if k["property"] == pid and not k.get("fixed")]
    new, seen = [], {}
    for v in violations:
        k = next((k for k in kf if k["case"] in v["case"] and k.get("detail", "") in v["detail"]), None)
        if k:
            seen[k["case"]] = k
        else:
            new.append(v)
    for k in seen.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    ev = dict(property=pid, tier=tier, seed=seed, level=c["level"], coverage=cov, assumptions=c.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    for n, v in enumerate(new[:5]):
        d = dict(property=pid, case=v["case"], detail=v["detail"], addr=v.get("addr"), tier=tier, bin=v.get("bin"), profile=v.get("profile"),
                 crate=v.get("crate", "mc"), flags=v.get("flags", []), extra=v.get("extra", []), cmd=v.get("cmd", f"cd {VERIF} && python3 run.py {pid} {tier}"))
        path = write_replay(pid, n, d)
        print(f"  [{v.get('profile')}] {v['case'][:600]}\n    -> {v['detail'][:600]}")
        print(f"VIOLATION property={pid} replay={path}")
    print(f"{pid} {tier}: {'VIOLATED' if new else 'held'}; {json.dumps({k: v for k, v in cov.items() if isinstance(v, int)})} in {ev['wall_s']} s")
    return 1 if new else 0

def standard(pid, c, tier, t0):
    budget = 820 if tier == "quick" else 4 * 3600
    violations, reps = [], {}
    for prof in c.get("profiles", ["checked", "release"]):
        binary = c.get("bin_thorough", c["bin"]) if tier == "thorough" else c["bin"]
        b = build(binary, prof, extra=c.get("flags_thorough", []) if tier == "thorough" else [])
        extra = c.get("extra", [])
        rep, vs = run_bin(pid, b, prof, tier, extra, max(30, budget - (time.time() - t0)))
        for v in vs:
            v.update(bin=binary, profile=prof, extra=extra, flags=c.get("flags_thorough", []) if tier == "thorough" else [])
        violations += vs
        if rep:
            reps[prof] = rep
        if violations and not known():
            break
    return coverage(c, reps), violations

def coverage(c, reps):
    tot, per, samples = {}, {}, []
    for prof, r in reps.items():
        per[prof] = dict(r["counters"], wall_s=r["wall_s"])
        for k, v in r["counters"].items():
            tot[k] = tot.get(k, 0) + v
        samples += [f"[{prof}] {s}" for s in r["samples"][:4]]
    cov = {}
    if c["level"] == "model_checking":
        cov["states"] = max([r["counters"].get("states", 0) for r in reps.values()] or [0])
        cov["transitions"] = tot.get("transitions", 0) + tot.get("explore_transitions", 0)
        cov["traces_validated_against_impl"] = tot.get("traces", 0) + tot.get("transitions", 0)  # every transition runs the implementation and is compared
    else:
        cov["evaluations"] = tot.get("evaluations", 0)
        cov["distinct_nontrivial"] = max([r["counters"].get("distinct_nontrivial", 0) for r in reps.values()] or [0])
        cov["rule"] = c["rule"]
    cov["samples"] = samples or ["none: the exploration did not complete"]
    cov["exhaustive"] = bool(reps)
    cov["explanation"] = c["explanation"]
    cov["per_profile"] = per
    return cov

if __name__ == "__main__":
    sys.exit(main())
