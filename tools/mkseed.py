#!/usr/bin/env python3
"""Plants the bugs described in tools/seed/*.bug: for each one, applies the change to /repo,
confirms that the stable tests still pass, that the demonstration passes without and fails with
the change, and (with --check) that the property's check reports it; then undoes the change.
usage: mkseed.py [--check] [id...]   (writes seeded/<id>/ for those that qualify)

A .bug file: 'property:', 'needs:', 'breaks:' lines, then sections '== file <path>' with
'<<<<' old '====' new '>>>>' blocks, then '== demo' with a Fortran program (or '== sh' with a script)."""
import sys, os, re, json, subprocess, shutil, time, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
STABLE = None

DEMO = r'''#!/bin/bash
# compiles demo.F90 against the library built in ./_build and runs it
here=$(cd "$(dirname "$0")" && pwd); B=$PWD/_build
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
inc=$(find "$B/src" "$B/lib" -name '*.mod' -printf '-I%h\n' | sort -u)
gfortran-11 -O1 -g -cpp -ffree-line-length-none -J"$w" $inc "$here/demo.F90" -o "$w/demo" -L"$B/src" -lfazang -Wl,-rpath,"$B/src" || exit 3
cd "$w" && timeout 120 ./demo
'''

def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def parse(p):
    t = open(p).read()
    d = dict(id=os.path.basename(p)[:-4], edits=[])
    head, *secs = re.split(r"^== ", t, flags=re.M)
    for l in head.splitlines():
        if ": " in l: k, v = l.split(": ", 1); d[k] = v.strip()
    for s in secs:
        name, body = s.split("\n", 1)
        if name.startswith("file "):
            assert re.search(r"^<<<<\n.*?^====\n.*?^>>>>$", body, flags=re.M | re.S), d["id"]
            for o, n in re.findall(r"^<<<<\n(.*?)^====\n(.*?)^>>>>$", body, flags=re.M | re.S):
                d["edits"].append((name[5:].strip(), o, n))
        elif name == "demo": d["demo"] = body
        elif name == "sh": d["sh"] = body
        else: sys.exit("bad section " + name)
    return d

def build_test():
    o = "/tmp/seed_out.json"
    b = sh("bash /opt/vp/build.sh")
    if b.returncode: return "build failed: " + b.stdout[-1500:] + b.stderr[-500:]
    sh("bash /opt/vp/test.sh " + o)
    j = json.load(open(o))
    base = json.load(open("/opt/vp/BASELINE.json"))
    bl = base if isinstance(base, list) else base.get("tests") or base.get("stable") or base.get("passed")
    ps = set(j["passed"])
    miss = [t for t in bl if t not in ps]
    return "tests failed: %s" % miss if miss else ""

def main():
    a = sys.argv[1:]; chk = "--check" in a; a = [x for x in a if not x.startswith("--")]
    bugs = [parse(p) for p in sorted(glob.glob(os.path.join(V, "tools/seed/*.bug")))]
    if a: bugs = [b for b in bugs if b["id"] in a]
    assert not sh("git -C %s status --short" % R).stdout.strip(), "/repo not clean"
    # unchanged tree: demos must pass
    r = build_test()
    if r: sys.exit(r)
    for b in bugs:
        # a planted bug counts only in source files of a language vcheck knows: not .F90
        d = os.path.join(V, "seeded" if all(f.endswith((".c", ".h")) for f, _, _ in b["edits"]) else "seeded_fortran", b["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        if "demo" in b: open(os.path.join(d, "demo.F90"), "w").write(b["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(b.get("sh") or DEMO)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        b["dir"] = d
        p = sh("bash %s/demo.sh" % d, cwd=R)
        b["clean"] = p.returncode
        if p.returncode: print(b["id"], "DEMO FAILS ON UNCHANGED TREE", p.returncode, p.stdout[-800:], p.stderr[-1500:])
    for b in bugs:
        d = b["dir"]; ok = b["clean"] == 0
        try:
            for f, o, n in b["edits"]:
                p = os.path.join(R, f); s = open(p).read()
                if s.count(o) != 1: print(b["id"], f, "old text found", s.count(o), "times"); ok = False; break
                open(p, "w").write(s.replace(o, n))
            if not ok: shutil.rmtree(d); continue
            open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % R).stdout)
            r = build_test()
            if r: print(b["id"], "REJECTED", r[:600]); shutil.rmtree(d); continue
            p = sh("bash %s/demo.sh" % d, cwd=R)
            if p.returncode == 0: print(b["id"], "DEMO PASSES WITH THE CHANGE"); shutil.rmtree(d); continue
            msg = "%s counts (demo exit %d: %s)" % (b["id"], p.returncode, (p.stdout + p.stderr).strip()[-150:].replace("\n", " / "))
            if chk:
                t = time.time(); c = sh("python3 %s/bin/check.py %s quick" % (V, b["property"]))
                hit = c.returncode == 1 and ("VIOLATION property=" + b["property"]) in c.stdout
                msg += "\n    %s %s rc=%d %.0fs" % ("CAUGHT" if hit else "MISSED", b["property"], c.returncode, time.time() - t)
                cj = os.path.join(V, "tools/caught.json"); J = json.load(open(cj)) if os.path.exists(cj) else {}
                J[b["id"]] = "caught by " + b["property"] if hit else "missed"; json.dump(J, open(cj, "w"), indent=1, sort_keys=True)
                fam = re.findall(r"^---- .*", c.stdout, flags=re.M)
                msg += "  " + "; ".join(fam[:2])
                if c.returncode not in (0, 1): msg += c.stdout[-800:] + c.stderr[-800:]
            print(msg); sys.stdout.flush()
        finally:
            sh("git -C %s checkout -- ." % R)
    print("rebuild", build_test() or "ok")
if __name__ == "__main__": main()
