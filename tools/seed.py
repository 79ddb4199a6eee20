#!/usr/bin/env python3
"""Authoring of planted bugs: turns tools/seeds/*.py specs into seeded/<id>/ after confirming, on a scratch copy of /repo (/tmp/vfseed, made when missing and removed at the end),
that the change builds, keeps all stable tests passing, and that the demo fails with it and passes without it.
usage: seed.py [ID...] [--check]   (--check: also run the property's quick check against the change)"""
import glob, json, os, subprocess, sys, time
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
SEEDS = {}
def seed(id, prop, file, old, new, needs, breaks, demo, more=()): SEEDS[id] = dict(prop=prop, edits=[(file, old, new)] + list(more), needs=needs, breaks=breaks, demo=demo)
for f in sorted(glob.glob(H + "/seeds/*.py")): exec(open(f).read())
DEMO_SH = '''#!/bin/bash
# exit 0: property holds, 1: broken
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -r "$t"' EXIT
g++ -std=c++17 -O1 -g %s -I"$PWD/inc" "$here/demo.cpp" "$PWD"/src/*.cpp -o "$t/demo" || exit 3
"$t/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
W = os.environ.get("SEED_WT", "/tmp/vfseed"); R = W + "/repo"
if not os.path.exists(R):
    os.makedirs(W); sh("cp -a /repo %s; cp /opt/vp/build.sh /opt/vp/test.sh %s; sed -i 's#/repo#%s#g; s#/opt/vp/build.sh#%s/build.sh#g' %s/*.sh; rm -r %s/_build" % (R, W, R, W, W, R))
def clean(): sh("git -C %s checkout -q -- ." % R)
clean()
args = [a for a in sys.argv[1:] if not a.startswith("-")]; check = "--check" in sys.argv
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for i, s in SEEDS.items():
    if args and i not in args: continue
    d = V + "/seeded/" + i
    if not args and os.path.exists(d + "/patch.diff") and not check: continue
    assert sh("git -C %s status --porcelain" % R).stdout.strip() == "", "repo not clean"
    os.makedirs(d, exist_ok=True); ok = True; msg = ""
    try:
        open(d + "/demo.cpp", "w").write(s["demo"].lstrip("\n")); san = ("" if "// ASSERTS" in s["demo"] else "-DNDEBUG ") + ("-fsanitize=address,undefined" if "// SANITIZE" in s["demo"] else "")
        open(d + "/demo.sh", "w").write(DEMO_SH % san); os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r = sh("cd %s && timeout 250 bash %s/demo.sh" % (R, d))
        if r.returncode: ok = False; msg += " demo-fails-on-clean(%d) %s" % (r.returncode, r.stdout[-600:])
        for f, o, n in s["edits"]:
            p = R + "/" + f; t = open(p).read()
            if t.count(o) != 1: ok = False; msg += " old text occurs %d times in %s" % (t.count(o), f); continue
            open(p, "w").write(t.replace(o, n))
        if ok:
            open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
            r = sh("cd %s && timeout 250 bash %s/demo.sh" % (R, d))
            if r.returncode == 0: ok = False; msg += " demo-passes-with-patch"
            if r.returncode == 3: ok = False; msg += " demo-does-not-compile " + r.stdout[-500:]
            r = sh("bash %s/test.sh %s/out.json" % (W, W)); o = json.load(open(W + "/out.json")); miss = stable - set(o["passed"])
            if miss: ok = False; msg += " tests-fail %d %s" % (len(miss), sorted(miss)[:3])
            if check and ok:
                t0 = time.time(); r = sh("cd %s && VERIF_SEED=1 VERIF_TIER=quick VF_REPO=%s python3 check.py %s" % (V, R, s["prop"])); v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + s["prop"])]
                msg += " check rc=%d %s %.0fs" % (r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", time.time() - t0)
                if not (r.returncode == 1 and v): msg += " " + r.stdout[-300:]
    finally: clean()
    if not ok: sh("rm -r " + d)
    print(("OK   " if ok else "BAD  ") + i + msg, flush=True)
if "--keep" not in sys.argv: sh("rm -r " + W)
