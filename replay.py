#!/usr/bin/env python3
"""replay.py FILE: run a counterexample written by check.py against the real code (native build of the current /repo)."""
import json, os, re, shutil, sys, tempfile
import check
def main():
    txt = open(sys.argv[1]).read().splitlines()
    m = re.match(r"# property (\S+), harness (\S+) entry (\S+), configuration (\S+)", txt[0])
    pid, harness, entry, tag = m.groups()
    params = json.loads([l for l in txt if l.startswith("# params ")][0][9:])
    inputs = [l.split() for l in txt if l and not l.startswith("#")]
    inputs = [(int(a), b) for a, b in inputs]
    rest = tag[len(harness) - 4 + 1:]; ub = rest.endswith("_ub"); cfg = rest[:-3] if ub else rest
    work = tempfile.mkdtemp(prefix="vf_replay_")
    try:
        b = check.Build(work, os.path.join(check.HERE, "harness", harness), cfg, ub); bad = False
        for kind in ("plain", "san", "uninit"):
            rc, out, err = check.run_native(b.native(kind), entry, inputs, params, work)
            print("== %s build: exit %s\n%s%s" % (kind, "timeout" if rc is None else rc, out, err[-3000:]))
            bad |= rc is None or rc not in (0, 77, 78, 79)
    finally: shutil.rmtree(work, ignore_errors=True)
    print("reproduces" if bad else "does not reproduce"); sys.exit(1 if bad else 0)
main()
