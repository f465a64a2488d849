#!/usr/bin/env python3
# plant.py ID [--nocheck]: confirms a planted bug (applies, builds, passes the stable tests, demo 0 without / nonzero with) and runs its property's check on it.
import sys, os, json, subprocess, time
V = "/verif"; ids = [a for a in sys.argv[1:] if not a.startswith("-")]
def sh(c, t=900):
    try: r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace"); return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 124, "timeout"
assert sh("git -C /repo status --porcelain --untracked-files=no")[1] == "", "repo not clean"
for i in ids:
    d = "%s/seeded/%s" % (V, i); m = json.load(open(d + "/meta.json")); log = [i]
    rc, o = sh("bash /opt/vp/build.sh"); r0, o0 = sh("cd /repo && bash %s/demo.sh" % d, 300)
    rc, o = sh("git -C /repo apply %s/patch.diff" % d)
    if rc: print(i, "PATCH DOES NOT APPLY", o); continue
    try:
        rb, ob = sh("bash /opt/vp/build.sh"); rt, ot = sh("bash /opt/vp/test.sh /tmp/plant.json"); r1, o1 = sh("cd /repo && bash %s/demo.sh" % d, 300)
        ok = r0 == 0 and rb == 0 and "1053 passed, 0 failed" in ot and r1 != 0
        print(i, "VALID" if ok else "INVALID", "demo %d/%d build %d tests %s" % (r0, r1, rb, ot.strip().split("\n")[-1]))
        if not ok: print(o0[-250:], "\n", o1[-150:], "\n", ob[-500:] if rb else "")
        if "--nocheck" not in sys.argv and ok:
            t = time.time(); rc, o = sh("VERIF_TIER=quick VERIF_SEED=1 python3 %s/tools/check.py %s" % (V, m["property"]))
            print("   check %s: %s (%.0f s)" % (m["property"], "CAUGHT" if rc == 1 and "VIOLATION property=" + m["property"] in o else "MISSED rc %d" % rc, time.time() - t)); print("   ", [l for l in o.split("\n") if ": assert" in l or "sanitizer" in l or "hang" in l][:2])
    finally: sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
