#!/usr/bin/env python3
"""Decides a property of Python code: pycheck.py ID [--tier quick|thorough] [--entry E] [--params a,b] [--replay FILE] [-v]

Every job runs a harness function over the module under test (loaded from /repo's working tree, see lib/pysx.py) once per
feasible path. Counterexamples and samples of the paths are run again in plain Python against the unchanged module."""
import argparse, importlib.util, json, multiprocessing as mp, os, signal, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [HERE + "/lib", HERE + "/props"]; sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import pysx
REPO = os.environ.get("MBO_REPO", "/repo"); START = time.time()


def log(*a): print("[%6.1f]" % (time.time() - START), *a, flush=True)


def plain(x):
    if isinstance(x, (list, tuple)): return [plain(v) for v in x]
    if isinstance(x, dict): return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)): return sorted(map(plain, x))
    return x


def native(prop, fn, params, inputs):
    """Runs the harness in plain Python; returns (verdict, message, traces)."""
    sx = pysx.Sx(inputs)
    try:
        h = pysx.load(HERE + "/harness/" + prop.HARNESS, False, [d.replace("/repo", REPO, 1) for d in prop.DIRS]); getattr(h, fn)(sx, *params)
    except pysx.Infeasible: return "infeasible", "", []
    except pysx.Violation as e: return "violation", str(e), plain(sx.traces)
    except KeyError as e:
        if e.args and e.args[0] not in inputs and any(e.args[0] == k for k in [e.args[0]]) and "self.values" in traceback.format_exc(): return "diverged", repr(e), []
        return "violation", "raises %r" % e, plain(sx.traces)
    except Exception as e: return "violation", "raises %r" % e, plain(sx.traces)
    return "ok", "", plain(sx.traces)


def explore(a):
    pid, fn, params, limit, samples = a; prop = load_prop(pid); E = pysx.E; pysx.reset()
    r = {"fn": fn, "params": params, "paths": 0, "infeasible": 0, "checks": 0, "complete": False, "violations": [], "samples": [], "covers": [], "why": "", "functions": []}
    t0 = time.time(); covers = set(); seen = set()

    def prof(frame, ev, arg):
        if ev == "call" and frame.f_code.co_filename.startswith(REPO): seen.add((os.path.basename(frame.f_code.co_filename), frame.f_code.co_qualname))
    try:
        h = pysx.load(HERE + "/harness/" + prop.HARNESS, True, [d.replace("/repo", REPO, 1) for d in prop.DIRS]); f = getattr(h, fn)
        while True:
            E.begin(); sx = pysx.Sx(); v = None; sys.setprofile(prof if r["paths"] < 40 else None)
            try: f(sx, *params)
            except pysx.Infeasible: v = "infeasible"
            except pysx.Violation as e: v = str(e)
            except pysx.Stop: raise
            except Exception as e: v = "raises %s: %s" % (type(e).__name__, e); r.setdefault("tb", traceback.format_exc()[-1500:])
            finally: sys.setprofile(None)
            r["checks"] += sx.checks
            if v == "infeasible": r["infeasible"] += 1
            else:
                r["paths"] += 1; covers |= sx.covers
                if v is not None:
                    if len(r["violations"]) < 3: r["violations"].append({"msg": v, "inputs": sx.inputs()})
                elif len(r["samples"]) < samples and (r["paths"] < 3 or r["paths"] & (r["paths"] - 1) == 0): r["samples"].append({"inputs": sx.inputs(), "traces": plain(sx.shown())})
            if not E.next(): r["complete"] = True; break
            if time.time() - t0 > limit: r["why"] = "time limit %d" % limit; break
            if len(r["violations"]) >= 3: r["why"] = "enough violations"; break
    except pysx.Stop as e: r["why"] = str(e)
    except Exception as e: r["why"] = "engine: %r" % e; r["tb"] = traceback.format_exc()[-1500:]
    r.update(covers=sorted(covers), forks=E.forks, queries=E.queries, sat=E.sat, solver=E.time, secs=time.time() - t0, functions=sorted(seen))
    return r


def load_prop(pid):
    s = importlib.util.spec_from_file_location("prop_" + pid, HERE + "/props/%s.py" % pid); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m


def main():
    ap = argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--entry"); ap.add_argument("--params"); ap.add_argument("--replay"); ap.add_argument("-v", action="store_true"); ap.add_argument("--budget", type=float)
    o = ap.parse_args(); pid = o.id; prop = load_prop(pid)
    if o.replay:
        d = json.load(open(o.replay)); v, m, t = native(prop, d["entry"], d["params"], d["inputs"]); print(v, m, json.dumps(t)); return 1 if v == "violation" else 0
    budget = o.budget or (420 if o.tier == "quick" else 820)
    jobs = [(pid, f, p, t, 6) for f, p, t, tier in prop.JOBS if tier == "quick" or o.tier == "thorough"]
    if o.entry: jobs = [j for j in jobs if j[1] == o.entry and (o.params is None or ",".join(map(str, j[2])) == o.params)]
    res = []
    with mp.Pool(min(8, os.cpu_count() or 4)) as pool:
        it = pool.imap_unordered(explore, jobs)
        for _ in jobs:
            try: r = it.next(timeout=max(1, budget - (time.time() - START)))
            except mp.TimeoutError: break
            res.append(r)
            if o.v: log(r["fn"], r["params"], "paths", r["paths"], "inf", r["infeasible"], "%.1fs" % r["secs"], r["why"], r["violations"][:1], r.get("tb", "") if r["why"] or r["violations"] else "")
        pool.terminate()
    done = {(r["fn"], tuple(r["params"])) for r in res}
    missing = [{"job": "%s(%s)" % (j[1], ",".join(map(str, j[2]))), "why": "not run"} for j in jobs if (j[1], tuple(j[2])) not in done]
    missing += [{"job": "%s(%s)" % (r["fn"], ",".join(map(str, r["params"]))), "why": r["why"]} for r in res if not r["complete"]]
    ok = bad = 0; viol = []; unconfirmed = []; mism = []
    known = [k for k in json.load(open(HERE + "/known_findings.json")).get("known", []) if k.get("property") == pid] if os.path.exists(HERE + "/known_findings.json") else []
    for r in res:
        for s in r["samples"]:
            v, m, t = native(prop, r["fn"], r["params"], s["inputs"])
            if v == "ok" and t == s["traces"]: ok += 1
            elif v == "violation": viol.append({"entry": r["fn"], "params": r["params"], "inputs": s["inputs"], "msg": m})
            else: bad += 1; mism.append([r["fn"], r["params"], s, v, m, t])
        for x in r["violations"]:
            v, m, t = native(prop, r["fn"], r["params"], x["inputs"])
            (viol if v == "violation" else unconfirmed).append({"entry": r["fn"], "params": r["params"], "inputs": x["inputs"], "msg": m or x["msg"], "native": v})
    listed = [v for v in viol if any(k["entry"] == v["entry"] and k["msg"] in v["msg"] for k in known)]
    for k in known:
        if any(k["entry"] == v["entry"] and k["msg"] in v["msg"] for v in listed): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    fresh = [v for v in viol if v not in listed]
    covers = sorted(set(c for r in res for c in r["covers"])); lost = [c for c in prop.COVERS if c not in covers] if not o.entry else []
    for m in missing[:12]: log("not fully explored:", json.dumps(m))
    for m in mism[:6]: log("trace mismatch:", json.dumps(m, default=str)[:600])
    for u in unconfirmed[:6]: log("unconfirmed:", json.dumps(u)[:600])
    if lost: log("not reached:", lost)
    S = lambda k: sum(r[k] for r in res)
    log("%s %s: jobs %d/%d complete, paths %d, checks %d, smt %d (%.1fs), traces ok %d bad %d" % (pid, o.tier, len([r for r in res if r["complete"]]), len(jobs), S("paths"), S("checks"), S("queries"), S("solver"), ok, bad))
    ev = {"property": pid, "tier": o.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": {
        "states": S("paths"), "transitions": S("forks") + S("paths"), "traces_validated_against_impl": ok,
        "samples": [{"job": "%s(%s)" % (r["fn"], ",".join(map(str, r["params"]))), "inputs": s["inputs"]} for r in res for s in r["samples"][:1]][:4],
        "rule": "states: completed paths, each covering every input satisfying its path condition; transitions: forks with both sides feasible plus path completions; traces: solver-chosen inputs of completed paths run again in plain Python against the unchanged module, with all assertions and the recorded outputs agreeing",
        "bounds": prop.BOUNDS, "outside_the_bounds": prop.OUTSIDE, "jobs": len(jobs), "jobs_fully_explored": len([r for r in res if r["complete"]]), "jobs_not_fully_explored": missing,
        "assertions_checked": S("checks"), "smt_queries": S("queries"), "smt_sat": S("sat"), "smt_unsat": S("queries") - S("sat"), "solver_seconds": round(S("solver"), 2), "functions_encoded": sorted({"%s:%s" % tuple(f) for r in res for f in r["functions"]}), "covered": covers, "not_reached": lost, "unconfirmed": unconfirmed[:5], "trace_mismatches": len(mism)},
        "assumptions": getattr(prop, "ASSUME", []), "wall_s": round(time.time() - START, 1), "violations": len(fresh)}
    if not o.entry:
        os.makedirs(HERE + "/evidence", exist_ok=True); json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
    if fresh:
        os.makedirs(HERE + "/out/" + pid, exist_ok=True)
        for i, v in enumerate(fresh[:6]):
            p = HERE + "/out/%s/%s-%d.json" % (pid, v["entry"], i); json.dump(v, open(p, "w"), indent=1); log("violation:", json.dumps(v)[:700])
        print("VIOLATION property=%s replay=%s" % (pid, HERE + "/out/%s/%s-0.json" % (pid, fresh[0]["entry"]))); return 1
    return 0


if __name__ == "__main__": sys.exit(main())
