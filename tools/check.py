#!/usr/bin/env python3
# check.py ID [--tier quick|thorough]: decides one property on /repo's current tree.
# exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 2: no answer (machinery could not be built or run).
import sys, os, time, json, re, argparse, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import psxlib as P
from registry import CHECKS, STUBS

def load_known(prop):
    out = []
    f = os.path.join(P.VERIF, "known_findings.jsonl")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if not l or l.startswith("#"): continue
            d = json.loads(l)
            if d.get("property") == prop and d.get("status") == "known": out.append(d)
    return out

def site(err):
    """innermost stack frames inside the library, as 'function' list (no line numbers)"""
    return re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n(]*)", err)

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time(); c = CHECKS[a.id]; tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    total = 420 if tier == "quick" else 800
    P.build_engine()
    entries = list(c["quick"]) if tier == "quick" else list(c["quick"]) + list(c.get("thorough", []))
    known = load_known(a.id); viol = []; knownhit = {}; unrepro = []; runs = []; funcs = set(); samples = []; nval = 0; mism = []
    builds = {}
    def build(src):
        if src not in builds:
            with ThreadPoolExecutor(2) as ex:
                fb = ex.submit(P.build_bc, [src]); fn = ex.submit(P.build_native, [src])
                builds[src] = (fb.result(), fn.result())
        return builds[src]
    rdir = os.path.join(P.BUILD, "replays"); os.makedirs(rdir, exist_ok=True)
    scale = 1.0 if tier == "quick" else float(c.get("scale", 3.0))
    for src in sorted(set(e[0] for e in entries), key=[e[0] for e in entries].index): build(src)
    tb = time.time() - t0
    # entries that do not finish within their nominal budget are run again, longer, while time remains
    queue = [(e, 1) for e in entries]
    while queue:
        e, attempt = queue.pop(0); src, entry, budget = e[:3]; opts = e[3] if len(e) > 3 else []
        left = total - (time.time() - t0)
        b = min((budget * scale if attempt == 1 else max(60, 4 * budget * scale)), left - 8)
        if b < 1:
            if attempt == 1: runs.append({"entry": entry, "exhausted": False, "skipped": "time budget used up"})
            continue
        bc, exe = build(src)
        r = P.run_psx(bc, entry, b, P.NCPU, opts, trace=True)
        if not r["stats"]: raise RuntimeError("psx gave no result for %s: rc %s\n%s" % (entry, r["rc"], r["log"][-2000:]))
        funcs |= r["funcs"]; s = r["stats"]
        # candidates: replay against the native build before reporting
        seen = {}
        for er in r["errors"]:
            k = (er["kind"], er["msg"] if er["kind"] == "assert" else er["loc"]); seen.setdefault(k, []).append(er)
        for k, ers in seen.items():
            ok = None
            for j, er in enumerate(ers[:4]):
                f = os.path.join(rdir, "%s_%s_%d.txt" % (a.id, entry, len(viol) + len(unrepro) + len(knownhit)))
                P.write_input(f, er["inputs"], ["property %s entry %s harness %s" % (a.id, entry, src), "engine: %s %s at %s" % (er["kind"], er["msg"], er["loc"]), er["stack"]])
                rc, err = P.run_native(exe, entry, f, timeout=20); cl = P.classify(rc, err)
                if cl is None: continue
                ok = (er, f, cl, err); break
            if ok is None:
                unrepro.append({"entry": entry, "kind": k[0], "what": ers[0]["msg"], "loc": ers[0]["loc"], "stack": ers[0]["stack"][:300]}); continue
            er, f, cl, err = ok
            kn = None
            for d in known:
                if d["entry"] == entry and re.search(d["match"], cl + " @ " + " < ".join(site(err)) + " @ " + er["stack"]): kn = d; break
            if kn: knownhit[kn["what"]] = f
            else: viol.append({"entry": entry, "what": cl, "msg": er["msg"], "loc": er["loc"], "replay": f, "stack": er["stack"][:600]})
        # validation of the symbolic paths against the implementation: same inputs must give the same sequence of witnesses natively
        want = c.get("traces", 16); pl = r["paths_list"]; pl = pl[::max(1, len(pl) // want)][:want]
        def val(x):
            n, (inp, rl) = x
            f = os.path.join(rdir, "trace_%s_%s_%d_%d.txt" % (a.id, entry, os.getpid(), n)); P.write_input(f, inp)
            rc, err = P.run_native(exe, entry, f, timeout=20, verbose=True); os.unlink(f)
            nr = [l[8:] for l in err.split("\n") if l.startswith("  reach ")]
            return rc == 0 and nr == rl, P.classify(rc, err), inp, rl, nr
        with ThreadPoolExecutor(P.NCPU) as ex:
            for ok, cl, inp, rl, nr in ex.map(val, enumerate(pl)):
                if ok:
                    nval += 1
                    if len(samples) < 12: samples.append({"entry": entry, "inputs": {n: h[:160] for n, h in inp[:12]}, "witnesses": rl})
                else:
                    # the real code fails the harness's own assertions on inputs solved from a path: reported like a reproduced candidate
                    if cl and cl.startswith(("assert:", "sanitizer:")) and not viol:
                        f = os.path.join(rdir, "%s_%s_trace.txt" % (a.id, entry)); P.write_input(f, inp, ["property %s entry %s harness %s" % (a.id, entry, src), "native run of a path's inputs"])
                        rc, err = P.run_native(exe, entry, f, timeout=20); st = " < ".join(site(err)); kn = [d for d in known if d["entry"] == entry and re.search(d["match"], cl + " @ " + st)]
                        if kn: knownhit[kn[0]["what"]] = f
                        elif P.classify(rc, err) == cl: viol.append({"entry": entry, "what": cl, "msg": "", "loc": "native run of a symbolic path's inputs", "replay": f, "stack": st[:600]})
                    mism.append({"entry": entry, "native": cl, "engine_reach": rl, "native_reach": nr})
        if not r["exhausted"] and not r["unsup"] and attempt == 1: queue.append((e, 2))
        runs = [x for x in runs if x["entry"] != entry]
        runs.append({"entry": entry, "exhausted": r["exhausted"], "paths": s.get("paths", 0), "forks": s.get("forks", 0), "assume_killed": s.get("assumeKilled", 0), "asserts": s.get("asserts", 0),
                     "assert_queries": s.get("assertQueries", 0), "solver_queries": s.get("z3", 0), "cache_hits": s.get("cacheHits", 0), "solver_time_s": round(s.get("solverTime", 0), 2), "unknown": s.get("unknown", 0),
                     "unsupported": r["unsup"], "bounded": r["bounded"], "instructions": s.get("steps", 0), "witnesses": r["reach"], "wall_s": round(r["wall"], 1)})
        print("%s %s: %s, %d paths, %d queries, %.1f s%s" % (a.id, entry, "exhausted" if r["exhausted"] else "not exhausted within its budget", s.get("paths", 0), s.get("z3", 0), r["wall"], (", unsupported %s" % r["unsup"]) if r["unsup"] else ""))
        sys.stdout.flush()
        if viol: break
    tot = lambda k: sum(r.get(k, 0) for r in runs)
    lf = sorted(f for f in funcs if "pe_bliss" in f or "pe_utils" in f)
    cov = {"states": tot("paths"), "transitions": tot("forks"), "traces_validated_against_impl": nval, "samples": samples,
           "exhaustive": all(r["exhausted"] for r in runs), "entries": runs, "trace_mismatches": mism, "unreproduced_candidates": unrepro,
           "library_functions_encoded": len(lf), "functions": lf[:400], "solver_queries": tot("solver_queries"), "solver_time_s": round(tot("solver_time_s"), 2), "assertions_evaluated": tot("asserts"),
           "bounds": c["bounds"], "build_s": round(tb, 1), "known_findings_hit": list(knownhit),
           "meaning": "states = symbolic paths completed, transitions = feasible two-way forks taken; each path stands for every input satisfying its path condition"}
    ev = {"property": a.id, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
          "assumptions": STUBS + c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(P.VERIF, "evidence"), exist_ok=True)
    ef = os.path.join(P.VERIF, "evidence", a.id + ".json")
    with open(ef + ".tmp", "w") as f: json.dump(ev, f, indent=1)
    os.replace(ef + ".tmp", ef)
    for w in knownhit: print("KNOWN-FINDING: property=%s %s" % (a.id, w))
    for u in unrepro: print("note: candidate not reproduced natively (not reported): %s %s %s %s" % (u["entry"], u["kind"], u["what"], u["loc"]))
    for m in mism[:3]: print("note: trace mismatch %s" % m)
    for v in viol:
        print("  %s: %s at %s" % (v["entry"], v["what"], v["loc"])); print("  " + v["stack"])
        print("VIOLATION property=%s replay=%s" % (a.id, v["replay"]))
    print("%s %s: %d entries, %d exhausted, %d paths, %.0f s" % (a.id, tier, len(runs), sum(r["exhausted"] for r in runs), tot("paths"), time.time() - t0))
    return 1 if viol else 0

try: rc = main()
except SystemExit: raise
except Exception: traceback.print_exc(); print("no answer: the check could not be built or run"); rc = 2
sys.exit(rc)
