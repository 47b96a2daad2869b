#!/usr/bin/env python3
"""Development aid. seed.py try ID...: confirm a planted bug (tests pass with it, demo fails with it and passes without);
seed.py check ID...: run the quick check of its property against it. Always restores /repo."""
import json, os, subprocess, sys
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
mode = sys.argv[1]
for i in sys.argv[2:]:
    d = "/verif/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    if mode == "try":
        sh("bash /opt/vp/build.sh")
        a = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode: print(i, "patch does not apply", r.stdout); continue
    try:
        if mode == "try":
            t = sh("bash /opt/vp/test.sh /tmp/o.json"); o = json.load(open("/tmp/o.json"))
            b = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
            print(i, "OK" if a.returncode == 0 and b.returncode != 0 and len(o["passed"]) == 5 and not o["failed"] else "BAD", a.returncode, b.returncode, o)
            if a.returncode: print("clean:", a.stdout[-1500:])
            print("   ", b.stdout[-300:])
        else:
            b = sh("python3 run.py %s quick" % meta["property"], cwd="/verif")
            l = [x for x in b.stdout.splitlines() if x.startswith(("VIOLATION", "counterexample", "ERROR"))]
            print(i, meta["property"], "rc", b.returncode, "CAUGHT" if b.returncode == 1 and any(x.startswith("VIOLATION") for x in l) else "MISSED", l[:3])
    finally:
        sh("git -C /repo checkout -- .")
