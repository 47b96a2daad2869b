#!/usr/bin/env python3
"""Development aid: runs every openssl-replayed harness natively on random inputs (harness versus the real library)."""
import sys, os, re, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vplib; from checks import CHECKS
def one(p, h):
    wd = os.path.join(vplib.OUT, "selftest", p + h.name); os.makedirs(wd, exist_ok=True)
    try:
        inc = os.path.join(wd, "i.inc"); open(inc, "w").write("")
        exe = vplib.native_build(h, wd, "openssl" if h.replay != "model" else "model", inc)
        r0 = vplib.native_run(h, exe, 20)
        r = vplib.native_run(h, exe, 60, "200")
        return p, h.name, r0[0], r[0], (r0[1] + r[1])[-300:] if r[0] or r0[0] not in (0, 77) else ""
    except Exception as e: return p, h.name, -1, -1, str(e)[-600:]
with cf.ThreadPoolExecutor(8) as ex:
    fs = [ex.submit(one, p, h) for p in sys.argv[1].split(",") for h in CHECKS[p]["harnesses"] if h.tier == "quick" and (len(sys.argv) < 3 or re.search(sys.argv[2], h.name))]
    for f in fs:
        r = f.result()
        if r[4]: print(*r)
