#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: builds the library from /repo's working
tree, runs the explorers that decide the property, writes evidence/<id>.json."""
import sys, os, json, time, subprocess, hashlib, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fzbuild as B
from plans import PLANS, EXES
V = B.VERIF

def known():
    """known-findings.txt: 'property=<id> key=<text that identifies the finding> | description'"""
    r = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("property="):
                head, desc = l.split(" | ", 1)
                pid, key = head.split(" key=", 1)
                r.append((pid[len("property="):], key, desc))
    return r

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    plan = PLANS[pid]
    jobs = os.cpu_count() or 4
    kn = [k for k in known() if k[0] == pid]
    hits = {}; dropped = 0
    runs = plan["runs"](tier)
    # build everything first (variants in parallel)
    need = []
    for r in runs:
        for v in r.get("variants", [r["variant"]] if "variant" in r else []) + ([r["differs_from"]] if "differs_from" in r else []):
            if (v, r["exe"]) not in need: need.append((v, r["exe"]))
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            exes = dict(zip(need, ex.map(lambda k: B.build_exe(k[0], k[1], **EXES[k[1]]), need)))
    except B.BuildError as e:
        print("BUILD FAILED:", e); sys.exit(2)
    tb = time.time() - t0
    tot = dict(states=0, transitions=0, executions=0, infeasible=0, checks=0, unreproducible=0, stopped=0)
    fams, samples, viol, capped = [], [], [], False
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    for r in runs:
        if "pyrun" in r:
            j = r["pyrun"](exes, tier, jobs)
        else:
            exe = exes[(r["variant"], r["exe"])]
            out = os.path.join(B.BUILD, "out-%s-%d.json" % (pid, os.getpid()))
            env = dict(os.environ, **r.get("env", {}))
            env["FZ_KNOWN"] = "\n".join(k[1] for k in kn)
            env.setdefault("ASAN_OPTIONS", "detect_leaks=0")
            cmd = [exe, "--sel", r.get("sel", pid), "--jobs", str(jobs), "--out", out] + r.get("args", [])
            if tier == "thorough": cmd.append("--thorough")
            if r.get("budget"): cmd += ["--budget", str(r["budget"])]
            print("run:", r["variant"], " ".join(cmd[1:])); sys.stdout.flush()
            rc = subprocess.call(cmd, env=env)
            if rc not in (0, 1) or not os.path.exists(out):
                print("explorer failed, status", rc); sys.exit(2)
            j = json.load(open(out)); os.remove(out)
            for v in j["violations"]:
                v.update(variant=r["variant"], exe=r["exe"], sel=r.get("sel", pid), args=r.get("args", []), env=r.get("env", {}), tier=tier)
        if "differs_from" in r and j["violations"]:
            # a difference between configurations is the subject: drop what the base configuration shows as well
            base, keep = exes[(r["differs_from"], r["exe"])], []
            for v in j["violations"]:
                c = [base, "--sel", r.get("sel", pid), "--replay", v["family"], str(v["lo"]), str(v["hi"])] + (["--thorough"] if tier == "thorough" else [])
                if subprocess.call(c, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) == 1: dropped += 1
                else: keep.append(v)
            j["violations"] = keep
        for k in tot: tot[k] += j.get(k, 0)
        for k, c in j.get("known", {}).items(): hits[k] = hits.get(k, 0) + c
        capped |= bool(j.get("capped"))
        for f in j["families"]:
            f["variant"] = r.get("variant", f.get("variant", "")); fams.append(f)
        samples += j["samples"][:3]
        viol += j["violations"]
        if len(viol) >= 3: break
    fresh = viol
    for k in kn:
        if k[1] in hits: print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    for v in fresh:
        v["property"] = pid
        h = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(V, "replays", "%s-%s.json" % (pid, h))
        json.dump(v, open(p, "w"), indent=1)
        print("---- %s in family %s [%s..%s) of variant %s" % (pid, v.get("family"), v.get("lo"), v.get("hi"), v.get("variant")))
        print(v.get("text", "")[-3000:])
        print("VIOLATION property=%s replay=%s" % (pid, p))
    cov = dict(tot); cov["traces_validated_against_impl"] = tot["executions"]
    if plan["level"] == "fault_enumeration":
        cov["evaluations"] = tot["executions"]; cov["distinct_nontrivial"] = tot["states"]
        cov["rule"] = plan["rule"]
    cov.update(families=fams, samples=samples[:8] or ["(none)"], exhaustive=not capped, variants=sorted({f["variant"] for f in fams if f["variant"]}), build_s=round(tb, 1))
    if dropped: cov["same_in_base_configuration"] = dropped
    if hits: cov["known_finding_hits"] = hits
    ev = dict(property=pid, tier=tier, seed=seed, level=plan["level"], coverage=cov, assumptions=plan.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d executions, %d transitions, %d states, %d comparisons, build %.1fs, total %.1fs%s" % (pid, tier, tot["executions"], tot["transitions"], tot["states"], tot["checks"], tb, time.time() - t0, " (CAPPED)" if capped else ""))
    sys.exit(1 if fresh else 0)
main()
