#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   run one check
   check.py --replay <file>                replay a recorded violation
   check.py --selftest                     the concurrency engine against litmus programs
   check.py --all [quick|thorough]         run every check (development aid)

Builds the property's harnesses from /repo's working tree, runs their jobs in parallel, confirms any violation by
replaying its trace, writes evidence/<property>.json and reports."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
from spec import SPEC  # noqa: E402

OUT = HERE if REPO == "/repo" else os.path.join(HERE, "build", "dev")  # a development copy leaves no evidence
NCPU = int(os.environ.get("VP_NCPU", 0)) or os.cpu_count() or 8


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:detect_container_overflow=0"
    return e


def compile_unit(pid, unit, bdir):
    """unit: dict(name, src, flags?, engine='seq'|'conc', asan=True, opt='-O1')"""
    name = unit["name"]
    exe = os.path.join(bdir, name)
    inc = ["-I" + REPO, "-I" + os.path.join(HERE, "mc"), "-I" + os.path.join(HERE, "h")]
    base = ["g++", "-std=c++20", "-g1", "-w", "-DTESTPROJECT"]
    opt = [unit.get("opt", "-O1")]
    flags = unit.get("flags", [])
    objs, cmds = [], []
    if unit.get("engine") == "conc":
        o = exe + ".h.o"
        cmds.append(base + opt + ["-fsanitize=thread", "-fno-omit-frame-pointer"] + flags + inc +
                    ["-c", os.path.join(HERE, "h", unit["src"]), "-o", o])
        objs.append(o)
        for i, s in enumerate(["mc/conc.cc", "mc/mc_main.cc"]):
            o = "%s.e%d.o" % (exe, i)
            cmds.append(base + ["-O2"] + inc + ["-c", os.path.join(HERE, s), "-o", o])
            objs.append(o)
        link = ["g++", "-o", exe] + objs + ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-lpthread"]
    else:
        san = ["-fsanitize=address", "-fno-omit-frame-pointer"] if unit.get("asan", True) else []
        srcs = [os.path.join(HERE, "h", unit["src"]), os.path.join(HERE, "mc/mc_main.cc")]
        srcs += [os.path.join(HERE, "h", s) for s in unit.get("more_src", [])]
        srcs += [os.path.join(REPO, s) for s in unit.get("repo_src", [])]
        for i, s in enumerate(srcs):
            o = "%s.%d.o" % (exe, i)
            cmds.append(base + opt + san + flags + inc + ["-c", s, "-o", o])
            objs.append(o)
        link = ["g++", "-o", exe] + san + objs + ["-lpthread"]
    errs = []

    def run(c):
        r = subprocess.run(c, capture_output=True, text=True)
        if r.returncode:
            errs.append(" ".join(c) + "\n" + r.stderr[-4000:])
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(run, cmds))
    if not errs:
        run(link)
    return exe, errs


def tail(s, n=1500):
    return s if len(s) <= n else s[:n // 3] + "\n...\n" + s[-2 * n // 3:]


class Runner:
    def __init__(self, pid, tier, bdir):
        self.pid, self.tier, self.bdir = pid, tier, bdir
        self.stop = threading.Event()
        self.procs = set()
        self.lock = threading.Lock()

    def exec(self, exe, job, extra, timeout, tier=None):
        tag = re.sub(r"[^A-Za-z0-9_.]", "_", job) + "_" + str(threading.get_ident())
        out = os.path.join(self.bdir, tag + ".json")
        cur = os.path.join(self.bdir, tag + ".cur")
        err = os.path.join(self.bdir, tag + ".err")
        for f in (out, cur):
            if os.path.exists(f):
                os.unlink(f)
        with open(err, "w") as ef:
            p = subprocess.Popen([exe, "--tier", tier or self.tier, "--job", job, "--out", out, "--cur", cur] + extra,
                                 stdout=ef, stderr=ef, env=env(), cwd=self.bdir)
            with self.lock:
                self.procs.add(p)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
            with self.lock:
                self.procs.discard(p)
        etext = open(err, errors="replace").read(200000)
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except Exception:
                res = None
        trace = None
        if os.path.exists(cur):
            b = open(cur, "rb").read()
            if len(b) >= 16:
                n = int.from_bytes(b[8:16], "little")
                trace = [int.from_bytes(b[16 + 8 * i:24 + 8 * i], "little", signed=True) for i in range(min(n, 8192))]
        for f in (out, cur, err):
            if os.path.exists(f):
                os.unlink(f)
        return rc, res, trace, etext

    def kill_all(self):
        with self.lock:
            for p in list(self.procs):
                try:
                    p.kill()
                except Exception:
                    pass


def run_check(pid, tier):
    t0 = time.time()
    spec = SPEC[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    bdir = os.path.join(HERE, "build", "%s_%s_%d" % (pid, tier, os.getpid()))
    os.makedirs(bdir, exist_ok=True)
    try:
        return _run_check(pid, tier, spec, seed, bdir, t0)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def _run_check(pid, tier, spec, seed, bdir, t0):
    units = [u for u in spec["units"] if tier in u.get("tiers", ["quick", "thorough"])]
    with ThreadPoolExecutor(NCPU) as ex:
        built = list(ex.map(lambda u: compile_unit(pid, u, bdir), units))
    bad = [e for _, errs in built for e in errs]
    if bad:
        print("ERROR: harness build failed\n" + "\n".join(bad))
        return 2
    t_build = time.time() - t0
    jobs, quick_jobs = [], set()
    for (exe, _), u in zip(built, units):
        r = subprocess.run([exe, "--tier", tier, "--list"], capture_output=True, text=True, env=env())
        if r.returncode != 0:
            print("ERROR: cannot list jobs of", u["name"], r.stderr[-2000:])
            return 2
        jobs += [(exe, u, j) for j in r.stdout.split("\n") if j]
        if tier == "thorough":
            r = subprocess.run([exe, "--tier", "quick", "--list"], capture_output=True, text=True, env=env())
            quick_jobs |= set(r.stdout.split("\n"))
    cap = spec.get("cap", {}).get(tier, 150 if tier == "quick" else 780)
    hard = 700 if tier == "quick" else 1000
    left = [len(jobs)]

    def share():
        """thorough: jobs not yet started share what is left of the check's time, so a whole check stays within 15 minutes"""
        if tier == "quick":
            return cap
        remain = max(20.0, t0 + cap + 30 - time.time())
        n = max(1, left[0])
        left[0] -= 1
        return int(min(cap, remain, max(20.0, remain * NCPU / n)))
    runner = Runner(pid, tier, bdir)
    results, bads, hits = [], [], []

    def one(t):
        exe, u, j = t
        if one_tier(exe, u, j, tier, share()) and tier == "thorough" and j in quick_jobs:
            one_tier(exe, u, j, "quick", 150)

    def one_tier(exe, u, j, jtier, jcap):
        """runs one job; true when it held but ran out of time (a thorough job then also runs at its smaller, quick
        bounds, so that what is covered completely is never less than in the quick check)"""
        if runner.stop.is_set():
            return
        rc, res, trace, etext = runner.exec(exe, j, ["--cap", str(jcap)], hard, jtier)
        if rc == 77 and not runner.stop.is_set():  # no progress for a while: slow, or a hang? With three times the patience
            rc, res, trace, etext = runner.exec(exe, j, ["--cap", str(jcap), "--hang", "75"], hard, jtier)
        if runner.stop.is_set() and rc not in (0, 1):
            return
        with runner.lock:
            if rc == 0 and res and not res["violation"]:
                results.append(res)
                return not res["exhaustive"]
            kf = match_known(pid, j, res, etext)
            if kf:
                hits.append(kf)
                return
            bads.append((exe, u, j, rc, res, trace, etext, jtier))
        if not runner.stop.is_set():
            runner.stop.set()
            runner.kill_all()

    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, jobs))

    violation = None
    if bads:
        exe, u, j, rc, res, trace, etext, jtier = bads[0]
        conf = Runner(pid, jtier, bdir)
        if rc == 1 and res and res["violation"]:
            v = res["violation"]
            tr = v["trace"]
            rc2, res2, _, et2 = conf.exec(exe, j, ["--replay", ",".join(map(str, tr))], 600)
            if (res2 and res2["violation"]) or rc2 in (99, 77) or (isinstance(rc2, int) and rc2 < 0):
                if res2 and res2["violation"] and res2["violation"]["text"]:
                    v["text"] = res2["violation"]["text"]
                violation = dict(job=j, unit=u["name"], msg=v["msg"], text=v["text"], trace=tr)
            else:  # memory the code should not have read may differ in a shorter run: repeat the whole job
                rc3, res3, tr3, et3 = conf.exec(exe, j, ["--cap", str(cap)], hard)
                if (rc3 == 1 and res3 and res3["violation"]) or rc3 == 99:
                    violation = dict(job=j, unit=u["name"], msg=v["msg"] + " (whole job; not in isolation)", text=v["text"], trace=None)
                else:
                    print("ERROR: violation did not reproduce:", json.dumps(v)[:2000], rc2, tail(et2), rc3)
                    return 2
        elif rc == 3:
            print("ERROR: replay divergence inside job", j, tail(etext))
            return 2
        elif rc == "timeout":
            print("ERROR: job", j, "exceeded its hard time limit")
            return 2
        else:
            kind = "hang" if rc == 77 else "crash (exit %s)" % rc
            rc2, res2, tr2, et2 = conf.exec(exe, j, ["--replay", ",".join(map(str, trace or [])), "--hang", "75"], 600)
            if rc2 not in (0, 3) or (res2 and res2["violation"]):
                violation = dict(job=j, unit=u["name"], msg=kind + ": " + tail(et2 or etext), text="", trace=trace)
            else:
                rc3, res3, tr3, et3 = conf.exec(exe, j, ["--cap", str(cap), "--hang", "75"], hard)
                if rc3 not in (0, 2, 3, "timeout"):
                    violation = dict(job=j, unit=u["name"], msg=kind + " (whole job): " + tail(et3 or etext), text="",
                                     trace=None)
                else:
                    print("ERROR: job failed once and not again:", j, rc, tail(etext), "then", rc3)
                    return 2

    exhaustive = all(r["exhaustive"] for r in results) and not violation
    agg = {k: sum(r[k] for r in results) for k in ("evaluations", "distinct", "states", "transitions", "traces", "outcomes")}
    samples = []
    for r in results:
        for s in r["samples"][:1]:
            if len(samples) < 12:
                samples.append(r["job"] + ": " + s[:600])
    notes = sorted({n for r in results for n in r["notes"]})
    extra = {}
    for r in results:
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
    level = spec["level"]
    cov = {"exhaustive": exhaustive, "samples": samples or [r["job"] for r in results[:3]], "rule": spec["rule"],
           "jobs": len(results), "bounds": notes[:60], "distinct_outcomes": agg["outcomes"], "counters": extra,
           "per_job": [{"job": r["job"], "executions": r["evaluations"], "states": r["states"],
                        "transitions": r["transitions"], "complete": r["exhaustive"]} for r in results][:120]}
    if level == "model_checking":
        cov.update(states=agg["states"], transitions=agg["transitions"], traces_validated_against_impl=agg["traces"])
        cov["executions"] = agg["evaluations"]
    else:
        cov.update(evaluations=agg["evaluations"], distinct_nontrivial=agg["distinct"])
        if agg["states"]:
            cov.update(states=agg["states"], transitions=agg["transitions"])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "build_s": round(t_build, 2), "violations": 0,
          "assumptions": spec.get("assumptions", [])}
    rc = 0
    if violation:
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        rp = os.path.join("replays", "%s_%s.json" % (pid, time.strftime("%Y%m%d_%H%M%S")))
        violation["property"] = pid
        violation["tier"] = jtier
        violation["how"] = "python3 check.py --replay " + rp
        json.dump(violation, open(os.path.join(OUT, rp), "w"), indent=1)
        ev["violations"] = 1
        ev["violation"] = {"job": violation["job"], "msg": violation["msg"][:2000], "replay": rp}
        print("job %s: %s\n  %s" % (violation["job"], violation["msg"], violation["text"][:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, "evidence", pid + ".json"), "w"), indent=1)
    for line in sorted(set(hits)):
        print("KNOWN-FINDING: property=%s %s" % (pid, line))
    print("%s %s: %s  jobs=%d executions=%d states=%d transitions=%d exhaustive=%s  build %.1fs total %.1fs" % (
        pid, tier, "VIOLATED" if rc else "held", len(results), agg["evaluations"], agg["states"], agg["transitions"],
        exhaustive, t_build, time.time() - t0))
    if not exhaustive and not violation:
        for n in notes:
            if "cap" in n:
                print("  note:", n)
    return rc


def match_known(pid, job, res, etext):
    """known-findings.txt: 'property=<id> job=<job> match=<text> :: <what fails>' names one recorded, unrepaired
    finding: that job (one specific history program) failing with that message.  Anything else is reported.
    Lines starting 'fixed:' are a record only and suppress nothing."""
    f = os.path.join(HERE, "known-findings.txt")
    if not os.path.exists(f):
        return None
    msg = res["violation"]["msg"] if res and res["violation"] else ""
    for l in open(f):
        m = re.match(r"property=(\S+) job=(\S+) match=(.*?) :: (.*)", l.strip())
        if m and m[1] == pid and m[2] == job and msg and m[3] in msg:
            return m[4]
    return None


def replay(path):
    v = json.load(open(path))
    pid = v["property"]
    bdir = os.path.join(HERE, "build", "replay_%d" % os.getpid())
    os.makedirs(bdir, exist_ok=True)
    try:
        u = [u for u in SPEC[pid]["units"] if u["name"] == v["unit"]][0]
        exe, errs = compile_unit(pid, u, bdir)
        if errs:
            print("\n".join(errs))
            return 2
        extra = ["--replay", ",".join(map(str, v["trace"]))] if v["trace"] is not None else []
        rc, res, tr, et = Runner(pid, v["tier"], bdir).exec(exe, v["job"], extra, 900)
        print("exit", rc)
        print(json.dumps(res, indent=1) if res else tail(et, 6000))
        return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def selftest():
    """the concurrency engine on classic litmus programs: exactly the allowed outcomes, races found and not invented"""
    bdir = os.path.join(HERE, "build", "selftest_%d" % os.getpid())
    os.makedirs(bdir, exist_ok=True)
    try:
        exe, errs = compile_unit("selftest", dict(name="litmus", src="litmus.cc", engine="conc"), bdir)
        if errs:
            print("\n".join(errs))
            return 2
        jobs = [j for j in subprocess.run([exe, "--tier", "quick", "--list"], capture_output=True, text=True, env=env()).stdout.split("\n") if j]
        run = Runner("selftest", "quick", bdir)
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda j: (j, run.exec(exe, j, ["--cap", "100"], 300)), jobs))
        bad = 0
        for j, (rc, r, _, et) in res:
            if rc != 0 or not r or r["violation"] or not r["exhaustive"]:
                bad += 1
                print("litmus", j, "FAILED", rc, r and r["violation"], tail(et))
        print("litmus programs:", len(jobs), "failed:", bad)
        return 1 if bad else 0
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if a[:1] == ["--setup"]:  # nothing is kept between checks; make sure the tools are there
        r = subprocess.run(["g++", "--version"], capture_output=True, text=True)
        print(r.stdout.split("\n")[0], "-", len(SPEC), "checks")
        return r.returncode or selftest()
    if a[:1] == ["--selftest"]:
        return selftest()
    if a[:1] == ["--all"]:
        rc = 0
        for p in sorted(SPEC):
            r = run_check(p, tier)
            if r:
                print("** %s exit %d" % (p, r))
            rc = rc or r
        return rc
    if not a or a[0] not in SPEC:
        print(__doc__)
        return 2
    return run_check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
