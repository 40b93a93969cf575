#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--secs N]

Builds the harnesses of one property against /repo's working tree, runs them, writes
evidence/PROPERTY.json; exit 0 held, 1 violated (with a VIOLATION line), 2 broken check."""
import argparse, json, os, shutil, subprocess, sys, tempfile, time, signal
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import build as B
from props import PROPS, QUICK_SECS, THOROUGH_SECS

def known():
    """(property, probe, text) of the findings that are recorded rather than repaired."""
    out = []
    for l in open(os.path.join(V, "known_findings.txt")):
        l = l.strip()
        if l.startswith("KNOWN-FINDING: "):
            _, prop, rest = l.split(" ", 2)
            probe, text = rest.split(" ", 1)
            out.append((prop.split("=")[1], probe.split("=")[1], text))
    return out

def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        try:
            s = os.statvfs(d)
            if s.f_bavail * s.f_frsize > 3 << 30 and os.access(d, os.W_OK):
                return d
        except OSError: pass
    return "/tmp"

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--secs", type=float); ap.add_argument("--only")
    a = ap.parse_args()
    P = a.prop; seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = PROPS[P]; t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    secs = a.secs or (THOROUGH_SECS if tier == "thorough" else QUICK_SECS) * spec.get("time", 1.0)
    try:
        exes = [(B.build(h, v), w) for h, v, w in spec["harness"]]
    except RuntimeError as e:
        # no answer is given for a tree that does not compile
        print("build failed:\n%s" % e); return 2
    sd = tempfile.mkdtemp(prefix="verif-%d-" % os.getpid(), dir=scratch_root())
    def bye(*_): raise SystemExit(2)
    signal.signal(signal.SIGTERM, bye)
    try:
        if a.replay:
            d = json.load(open(a.replay)); exe = exes[d.get("part", 0)][0]
            r = subprocess.run([exe, "--prop", P, "--replay", os.path.abspath(a.replay), "--scratch", sd, "--verbose"])
            return r.returncode
        return check(P, tier, seed, secs, spec, exes, sd, t0, a.only)
    finally:
        subprocess.run(["rm", "-rf", "--", sd])

def check(P, tier, seed, secs, spec, exes, sd, t0, only):
    total = sum(w for _, w in exes)
    evals = 0; distinct = 0; samples = []; tests = {}; failure = None; unrep = 0; lost = 0
    # known findings: each has a probe that reproduces exactly the recorded failure
    kf = []
    for prop, probe, text in known():
        if prop != P: continue
        hit = False
        for i, (exe, _) in enumerate(exes):
            ss = os.path.join(sd, "p%s" % probe); os.makedirs(ss, exist_ok=True)
            r = subprocess.run([exe, "--prop", P, "--probe", probe, "--scratch", ss], stdout=subprocess.PIPE, text=True)
            subprocess.run(["rm", "-rf", "--", ss])
            if r.returncode == 1: hit = True
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (P, text)); kf.append(probe)
    for i, (exe, w) in enumerate(exes):
        ss = os.path.join(sd, "r%d" % i); os.makedirs(ss)
        cmd = [exe, "--prop", P, "--secs", "%.2f" % (secs * w / total), "--seed", str(seed + 1000 * i), "--scratch", ss,
               "--workers", str(spec.get("workers", 8))]
        if only: cmd += ["--only", only]
        if tier == "thorough": cmd.append("--thorough")
        r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True)
        subprocess.run(["rm", "-rf", "--", ss])
        try: d = json.loads(r.stdout)
        except ValueError:
            print("harness gave no result (exit %s): %s" % (r.returncode, r.stdout[:500])); return 2
        lost += d["lost_workers"]
        for wk in d["workers"]:
            for t in wk:
                evals += t["evals"]; unrep += t["unreproduced"]
                x = tests.setdefault(t["test"], dict(cases=0, discarded=0, counters={}))
                x["cases"] += t["evals"]; x["discarded"] += t["discards"]
                for k, n in t["counters"].items(): x["counters"][k] = x["counters"].get(k, 0) + n
                for s in t["samples"]:
                    if sum(1 for y in samples if y["test"] == t["test"]) < 2:
                        samples.append(dict(test=t["test"], case=s))
        for k, n in d["distinct"].items():
            distinct += n; tests.setdefault(k, dict(cases=0, discarded=0, counters={}))["distinct_nontrivial"] = n
        if d["failure"]:
            failure = d["failure"]; failure["part"] = i; failure["property"] = P; failure["seed"] = seed
            break
    rc = 0; viol = 0
    if failure:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        rp = os.path.join(V, "replays", "%s-%s-%d.json" % (P, failure["test"], os.getpid()))
        json.dump(failure, open(rp, "w"), indent=1)
        print("%s: %s: %s" % (failure["test"], failure["sig"], failure["msg"]))
        print("minimal case (%d choices):\n%s" % (len(failure["choices"]), failure["trace"][-3000:]))
        print("VIOLATION property=%s replay=%s" % (P, rp)); rc = 1; viol = 1
    elif lost or evals == 0:
        print("%d workers were lost, %d cases ran: no answer" % (lost, evals)); rc = 2
    ev = dict(property=P, tier=tier, seed=seed, level=spec.get("level", "exploration"),
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct, rule=spec["rule"],
                            samples=samples[:8] or [dict(test="none", case="no non-trivial case finished")],
                            tests=tests, unreproduced_failures=unrep, known_findings_seen=kf),
              assumptions=spec.get("assumptions", []) + COMMON, wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = os.path.join(V, "evidence", ".%s.tmp" % P)
    json.dump(ev, open(tmp, "w"), indent=1); os.rename(tmp, os.path.join(V, "evidence", "%s.json" % P))
    if rc == 0: print("%s held on %d cases (%d distinct non-trivial) in %.1f s" % (P, evals, distinct, ev["wall_s"]))
    return rc

COMMON = ["x86-64 Linux, gcc -O2, the library compiled from /repo/src with the flags of its own Makefile",
          "each case runs in its own process in its own empty store unless the test says otherwise"]
if __name__ == "__main__":
    sys.exit(main())
