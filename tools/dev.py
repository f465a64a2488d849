#!/usr/bin/env python3
# developer driver: dev.py harness.cpp entry [--time N] [--cov] [--replay]
import sys, os, argparse, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import psxlib as P
ap = argparse.ArgumentParser(); ap.add_argument("src"); ap.add_argument("entries", nargs="+"); ap.add_argument("--time", type=float, default=60); ap.add_argument("--cov", action="store_true"); ap.add_argument("--opts", default=""); ap.add_argument("--workers", type=int, default=8); ap.add_argument("--noreplay", action="store_true"); ap.add_argument("-D", action="append", default=[]); ap.add_argument("--trace", type=int, default=0)
a = ap.parse_args()
P.build_engine(); ex = ["-D" + d for d in a.D]
try: bc = P.build_bc([a.src], ex)
except RuntimeError as e: print(e); sys.exit(2)
for e in a.entries:
    r = P.run_psx(bc, e, a.time, a.workers, a.opts.split(), a.cov, bool(a.trace))
    s = r["stats"]
    print("== %s: %s wall %.1fs procs %d rc %s" % (e, "EXHAUSTED" if r["exhausted"] else "INCOMPLETE", r["wall"], r["procs"], r["rc"]))
    print("   ", {k: s.get(k) for k in ("paths", "forks", "steps", "assumeKilled", "errors", "asserts", "assertQueries", "unsup", "bounded", "unknown", "dropped", "z3", "cacheHits", "solverTime", "maxQuery", "timedOut", "exprs")})
    print("    reach", {k: v for k, v in r["reach"].items()})
    if r["unsup"]: print("    unsup", r["unsup"])
    if r["bounded"]: print("    bounded", r["bounded"])
    if r["log"].strip(): print("    log", r["log"][-2000:])
    seen = {}
    for er in r["errors"]:
        k = (er["kind"], er["msg"] if er["kind"] == "assert" else er["loc"])
        seen.setdefault(k, []).append(er)
    for k, ers in seen.items():
        er = ers[0]
        print("    ERROR", er["kind"], "|", er["msg"], "|", er["loc"]); print("       ", er["stack"][:1500])
        print("       ", [(n, h[:80]) for n, h in er["inputs"]][:30])
        if not a.noreplay:
            exe = P.build_native([a.src], ex); f = tempfile.mktemp(); P.write_input(f, er["inputs"]); rc, err = P.run_native(exe, e, f); print("        REPLAY:", P.classify(rc, err), "|", err[:150].replace("\n", " / "))
    if a.trace and r["paths_list"]:
        exe = P.build_native([a.src], ex); bad = 0; pl = r["paths_list"]; pl = pl[::max(1, len(pl) // a.trace)][:a.trace]
        for inp, rl in pl:
            f = tempfile.mktemp(); P.write_input(f, inp); rc, err = P.run_native(exe, e, f, verbose=True)
            nr = [l[8:] for l in err.split("\n") if l.startswith("  reach ")]
            if rc != 0 or nr != rl or "PSX-D" not in err and "PSX-COMPLETED" not in err: bad += 1; print("    TRACE MISMATCH", P.classify(rc, err), "engine", rl, "native", nr, err[-200:]); 
        print("    traces validated %d mismatches %d" % (len(pl), bad))
    if a.cov:
        for f, (h, m) in sorted(r["cov"].items()):
            m = m - h
            if len(h) > 5: print("    cov", f, "hit", len(h), "miss", sorted(m))
