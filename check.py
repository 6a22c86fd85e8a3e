#!/usr/bin/env python3
"""Decides one property by deterministic simulation of the code in /repo's working tree.

  check.py C05 [--tier quick|thorough] [--time S]     exit 0 held, 1 VIOLATION, 2 error
  check.py --build                                    build everything (setup)
  check.py --replay FILE [--trace]                    replay a violation on the current tree
"""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import CHECKS, FAULT_TEXT, REAL, STUB, RULE  # noqa: E402


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "include"), os.path.join(REPO, "src")] + [os.path.join(HERE, d) for d in ("sim", "scen", "oracle")]
    files = [os.path.join(HERE, "Makefile")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def build(binaries):
    """Builds into a directory named after the contents of all sources, so that no time stamp matters."""
    top = os.path.join(HERE, "build")
    b = os.path.join(top, "t-" + tree_hash())
    os.makedirs(b, exist_ok=True)
    with open(os.path.join(top, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        old = sorted((d for d in os.listdir(top) if d.startswith("t-") and os.path.join(top, d) != b), key=lambda d: os.path.getmtime(os.path.join(top, d)))
        for d in old[:-6]:
            shutil.rmtree(os.path.join(top, d), ignore_errors=True)
        rel = os.path.relpath(b, HERE)
        r = subprocess.run(["make", "-j%d" % (os.cpu_count() or 4), "B=" + rel, "REPO=" + REPO] + [rel + "/" + x for x in binaries],
                           cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print("ERROR: build failed\n" + r.stdout[-6000:])
            sys.exit(2)
    return b


def known_findings(prop):
    """known: property=C10 scenario=pool_selfjoin class=terminate contains="..." what fails"""
    res = []
    path = os.path.join(HERE, "known_findings.txt")
    for line in open(path):
        m = re.match(r'known: property=(\S+) scenario=(\S+) class=(\S+) contains="([^"]*)" (.*)', line.strip())
        if m and m.group(1) == prop:
            res.append(dict(scen=m.group(2), cls=m.group(3), contains=m.group(4), what=m.group(5)))
    return res


def explore(b, binary, scens, prop, seed, secs, mintime, known, tag):
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    out = os.path.join(rdir, "%s-%s.json" % (prop, tag))
    if os.path.exists(out):
        os.unlink(out)
    cmd = [os.path.join(b, binary), "explore", "--scen", ",".join(scens), "--seed", str(seed), "--time", str(secs), "--mintime", str(mintime),
           "--out", out, "--replay-dir", rdir, "--prop", prop]
    for k in known:
        cmd += ["--known", "%s|%s|%s" % (k["scen"], k["cls"], k["contains"])]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        d = json.load(open(out))
    except Exception:
        print("ERROR: %s did not finish (%s)\n%s" % (binary, r.returncode, r.stdout[-3000:]))
        sys.exit(2)
    os.unlink(out)
    d["binary"] = binary
    return d


def merge(ds):
    t = dict(ds[0])
    for d in ds[1:]:
        for k in ("runs", "steps", "sync_steps", "switches", "nontrivial", "distinct", "distinct_nontrivial", "sim_seconds", "explore_s", "known"):
            t[k] += d[k]
        t["faults"] = {k: [a + b for a, b in zip(v, d["faults"][k])] for k, v in t["faults"].items()}
        t["scenarios"] = {**t["scenarios"], **d["scenarios"]}
        t["strategies"] = [a + b for a, b in zip(t["strategies"], d["strategies"])]
        t["samples"] = t["samples"] + d["samples"]
        t["known_hits"] = t["known_hits"] + d["known_hits"]
        p = dict(t["probes"])
        for k, v in d["probes"].items():
            p[k] = p.get(k, 0) + v
        t["probes"] = p
    return t


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--time", type=float)
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--trace", action="store_true")
    a = ap.parse_args()
    if a.build:
        print(build(sorted({x for c in CHECKS.values() for x, _ in c["scen"]})))
        return 0
    if a.replay:
        want = re.search(r"^scen(?:ario)?[ =](\S+)", open(a.replay).read(), re.M).group(1)
        binary = next(x for c in CHECKS.values() for x, s in c["scen"] if want in s)
        b = build([binary])
        return subprocess.run([os.path.join(b, binary), "replay", a.replay] + (["--trace"] if a.trace else [])).returncode
    prop = a.prop
    c = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"
    secs = a.time if a.time else (c.get("thorough_s", 600) if tier == "thorough" else c.get("quick_s", 25))
    t0 = time.time()
    b = build(sorted({x for x, _ in c["scen"]}))
    tb = time.time() - t0
    known = known_findings(prop)
    kscens = {k["scen"] for k in known}
    ds, viol, err = [], None, ""
    for i, (binary, scens) in enumerate(c["scen"]):
        w = c.get("weights", [1] * len(c["scen"]))
        d = explore(b, binary, scens, prop, seed, secs * w[i] / sum(w), 25 if tier == "quick" else 120, known, tier + str(i))
        ds.append(d)
        if d["rc"] == 1:
            viol = d["violation"]
            # a second opinion from a fresh process
            r = subprocess.run([os.path.join(b, binary), "replay", viol["replay"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 1:
                err = "replay in a fresh process gave exit %d: %s" % (r.returncode, r.stdout[-1500:])
                viol = None
            break
        if d["rc"] != 0:
            err = d["error"] or "exploration failed"
            break
    t = merge(ds)
    kinds = {k: dict(injected=v[0], runs_with=v[1]) for k, v in t["faults"].items() if v[0]}
    hits = {}
    for h in t["known_hits"]:
        for k in known:
            if k["scen"] == h["scenario"] and k["cls"] == h["class"] and k["contains"] in h["message"]:
                hits.setdefault(k["what"], 0)
                hits[k["what"]] += 1
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=t["runs"], distinct_nontrivial=t["distinct_nontrivial"], rule=RULE, samples=t["samples"],
                  runs_per_scenario=t["scenarios"], distinct_executions=t["distinct"],
                  seeds_per_hour=int(t["runs"] / max(t["explore_s"], 0.001) * 3600), simulated_seconds=round(t["sim_seconds"], 3),
                  scheduling_steps=t["steps"], synchronisation_steps=t["sync_steps"], context_switches=t["switches"],
                  strategies=dict(zip(("random_walk", "priority_pct", "sparse_preemption"), t["strategies"])),
                  faults_injected=kinds, fault_kinds_meaning={k: FAULT_TEXT.get(k, k) for k in kinds}, probes_hit=t["probes"],
                  executions_hitting_known_findings=t["known"],
                  components_real=REAL + c.get("real", []), components_stubbed=STUB, workers=t["workers"], build_s=round(tb, 1), explore_s=round(t["explore_s"], 1)),
              assumptions=c.get("assumptions", []) + [
                  "sequentially consistent memory: weak memory effects are covered only through the happens-before race check, not simulated",
                  "g++ -O1 code of the working tree; the shipped build uses other flags",
                  "seeded sampling: a clean batch is evidence, not proof"],
              wall_s=round(time.time() - t0, 1), violations=1 if viol else 0)
    if viol:
        ev["coverage"]["violation"] = viol
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for what in hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if err:
        print("ERROR property=%s %s" % (prop, err))
        return 2
    if viol:
        print("violated: %s [%s]: %s" % (viol["scenario"], viol["class"], viol["message"]))
        print("  %s" % viol["note"])
        print("  %s" % viol["trace"])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(viol["replay"], HERE)))
        return 1
    print("ok property=%s runs=%d distinct_nontrivial=%d simulated_s=%.0f faults=%s wall=%.1fs" %
          (prop, t["runs"], t["distinct_nontrivial"], t["sim_seconds"], {k: v["injected"] for k, v in kinds.items()}, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
