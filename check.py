#!/usr/bin/env python3
"""Decides one property: check.py ID [--tier quick|thorough] [--unit NAME] [--entry NAME] [--replay FILE]

Builds the property's harnesses against /repo's working tree into LLVM IR, runs the symbolic engine over every job,
replays every counterexample natively (ASan+UBSan), and writes evidence/ID.json.
Exit 0: held on everything explored; 1: VIOLATION (natively reproduced)."""
import concurrent.futures as cf
import hashlib, importlib.util, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + "/lib", HERE + "/props"]
import gen  # noqa: E402

REPO = gen.REPO
CXX = "/usr/bin/clang++-18"
SAN = "signed-integer-overflow,shift,bounds,null,unreachable,return,integer-divide-by-zero,vla-bound,bool,enum"
BUILD = os.environ.get("VERIF_BUILD", HERE + "/build")
NPROC = min(8, os.cpu_count() or 4)
ENGINE = BUILD + "/engine/symx"
START = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - START), *a, flush=True)


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)


def ensure_engine():
    if not os.path.exists(ENGINE) or os.environ.get("VERIF_REBUILD_ENGINE"):
        r = run(["bash", HERE + "/engine/build.sh", BUILD + "/engine"])
        if r.returncode:
            print(r.stdout[-3000:]); raise SystemExit("engine does not build")
    rt = BUILD + "/engine/rt.bc"
    srcs = [HERE + "/lib/rt.cc", HERE + "/lib/rt_std.cc", HERE + "/lib/rt_ios.cc", HERE + "/lib/rt_num.cc"]
    if not os.path.exists(rt) or os.stat(rt).st_mtime < max(os.stat(s).st_mtime for s in srcs):
        parts = []
        for i, src in enumerate(srcs):
            parts.append("%s.%d" % (rt, i))
            r = run([CXX, "-std=c++20"] + (["-O0", "-Xclang", "-disable-O0-optnone"] if src.endswith("rt_ios.cc") else ["-O1"]) + ["-fno-exceptions", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-emit-llvm", "-c", src, "-o", parts[-1]])
            if r.returncode:
                print(r.stdout[-3000:]); raise SystemExit("the runtime stand-ins do not build")
        r = run(["/usr/bin/llvm-link-18"] + parts + ["-o", rt + ".tmp"])
        if r.returncode:
            print(r.stdout[-3000:]); raise SystemExit("the runtime stand-ins do not link")
        os.replace(rt + ".tmp", rt)


def tree_key():
    """Content hash of everything a harness build can read (only used to reuse a build of the very same text)."""
    h = hashlib.sha256()
    for top in (REPO + "/mbo", HERE + "/harness", HERE + "/lib", HERE + "/shim", HERE + "/shim_fs"):
        for d, ds, fs in sorted(os.walk(top)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".cc", ".inc", ".in", ".bzl", ".bazel", ".py")) or "/shim" in d:
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(open(REPO + "/MODULE.bazel", "rb").read())
    return h.hexdigest()[:20]


def common_flags(u):
    fl = ["-std=c++20", "-fno-exceptions", "-w", "-DMBO_VERIF", "-I", HERE + "/lib", "-I", HERE + "/harness"]
    if u.shim:
        fl += ["-isystem", HERE + "/shim"]
    fl += ["-iquote", REPO] + (["-iquote", u.gendir] if u.gen else []) + ["-iquote", GEN] + u.defs + u.flags
    return fl


def build_bc(u, d):
    bc = d + "/" + u.name + ".bc"
    if os.path.exists(bc):
        return bc, ""
    parts = []
    srcs = [HERE + "/harness/" + u.src] + [REPO + "/" + s for s in u.repo_srcs] + [HERE + "/" + s for s in u.shim_srcs]
    san = [] if u.notrap else ["-fsanitize=" + SAN, "-fsanitize-trap=all"]
    for i, s in enumerate(srcs):
        o = "%s/%s.%d.bc" % (d, u.name, i)
        r = run([CXX] + common_flags(u) + ["-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DMBO_ENGINE"] + san + ["-emit-llvm", "-c", s, "-o", o])
        if r.returncode:
            return None, r.stdout[-4000:]
        parts.append(o)
    l = "%s/%s.l.bc" % (d, u.name)
    r = run(["/usr/bin/llvm-link-18"] + parts + ["-o", l])
    if r.returncode:
        return None, r.stdout[-3000:]
    # runtime functions that the harness does not define itself
    r = run(["/usr/bin/llvm-link-18", "--only-needed", l, BUILD + "/engine/rt.bc", "-o", l + "2"])
    if r.returncode:
        return None, r.stdout[-3000:]
    passes = u.opt or "function(sroa,simplifycfg,early-cse,simplifycfg,dce),globaldce"
    ent = ",".join(sorted({j.entry for j in u.jobs}))
    r = run(["/usr/bin/opt-18", "-passes=internalize,globaldce," + passes, "-internalize-public-api-list=" + ent, l + "2", "-o", bc + ".tmp"])
    if r.returncode:
        return None, r.stdout[-3000:]
    for p in parts + [l, l + "2"]:
        os.remove(p)
    os.replace(bc + ".tmp", bc)
    return bc, ""


def build_native(u, d, tag="", extra=()):
    exe = d + "/" + u.name + tag + ".native"
    if os.path.exists(exe):
        return exe, ""
    srcs = [HERE + "/harness/" + u.src, HERE + "/lib/replay.cc"] + [REPO + "/" + s for s in u.repo_srcs] + [HERE + "/" + s for s in u.shim_srcs]
    fl = common_flags(u)
    objs = []
    def one(i, s):
        o = "%s/%s%s.%d.o" % (d, u.name, tag, i)
        f = [x for x in fl if not (i == 1 and x in u.defs)]
        return o, run([CXX] + f + ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function,alignment", "-fno-sanitize-recover=all"] + [x for x in u.native_flags if not x.startswith("-Wl,")] + list(extra) + ["-c", s, "-o", o])
    with cf.ThreadPoolExecutor(4) as ex:
        for o, r in ex.map(lambda a: one(*a), list(enumerate(srcs))):
            if r.returncode:
                return None, r.stdout[-4000:]
            objs.append(o)
    r = run([CXX, "-fsanitize=address,undefined", "-rdynamic"] + [x for x in u.native_flags if x.startswith("-Wl,")] + objs + ["-o", exe + ".tmp", "-ldl"])
    if r.returncode:
        return None, r.stdout[-4000:]
    for o in objs:
        os.remove(o)
    os.replace(exe + ".tmp", exe)
    return exe, ""


ENV = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=1:strict_string_checks=0:detect_container_overflow=0",
           UBSAN_OPTIONS="exitcode=98:print_stacktrace=0")


def native_run(exe, entry, path, cwd=None):
    """-> (verdict, output) with verdict ok|violation|mismatch|hang"""
    try:
        r = run([exe, entry, path], timeout=30, env=ENV, cwd=cwd)
    except subprocess.TimeoutExpired:
        return "hang", "no answer within 30 s"
    o = r.stdout
    if r.returncode == 0 and ("REPLAY-OK" in o or "REPLAY-EXPECTED-ABORT" in o):
        return "ok", o
    if r.returncode == 77:
        return "mismatch", o
    if r.returncode in (1, 98, 99) or r.returncode < 0:
        return "violation", o
    return "mismatch", o


def write_inputs(path, params, inputs):
    with open(path, "w") as f:
        f.write("params " + " ".join(map(str, params)) + "\n")
        for i in inputs:
            f.write(" ".join(map(str, i)) + "\n")


def load_prop(pid):
    sp = importlib.util.spec_from_file_location("prop_" + pid, HERE + "/props/" + pid + ".py")
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def demangle(names):
    r = subprocess.run(["/usr/bin/llvm-cxxfilt-18"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split("\n")


def main():
    global GEN
    args = sys.argv[1:]
    pid = args[0]
    opt = lambda n, d=None: args[args.index(n) + 1] if n in args else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    tier = "thorough" if tier == "thorough" else "quick"
    only_unit, only_entry, only_params = opt("--unit"), opt("--entry"), opt("--params")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(opt("--budget", "780" if tier == "quick" else "14400"))
    P = load_prop(pid)
    if getattr(P, "PYTHON", False):  # Python code: another engine
        os.execv("/usr/local/bin/python3-vt", ["python3-vt", HERE + "/pycheck.py"] + sys.argv[1:])
    ensure_engine()
    GEN = BUILD + "/gen"
    gen_note = ""
    try:
        gen.render(GEN)
    except Exception as e:  # a .bzl that is no longer evaluable: use what is there, say so
        gen_note = "generated headers not re-rendered: %r" % e
        log(gen_note)
    ents = hashlib.sha256(repr([(u.name, u.src, u.defs, u.flags, u.repo_srcs, u.shim, u.opt, u.shim_srcs, sorted({j.entry for j in u.jobs})) for u in P.UNITS]).encode() + open(ENGINE, "rb").read()[:0]).hexdigest()[:8]
    d = "%s/w/%s-%s%s" % (BUILD, pid, tree_key(), ents)
    os.makedirs(BUILD + "/w", exist_ok=True)
    for x in os.listdir(BUILD + "/w"):
        if x.startswith(pid + "-") and not d.endswith("/" + x):
            shutil.rmtree(BUILD + "/w/" + x, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    outdir = HERE + "/out/" + pid
    units = [u for u in P.UNITS if not only_unit or u.name == only_unit]
    for u in units:
        u.run_jobs = [j for j in u.jobs if (tier == "thorough" or j.tier == "quick") and (not only_entry or j.entry == only_entry) and (not only_params or ",".join(map(str, j.params)) == only_params)]
    units = [u for u in units if u.run_jobs]

    if "--replay" in args:
        rp = json.load(open(opt("--replay")))
        u = [x for x in P.UNITS if x.name == rp["unit"]][0]
        if u.gen:
            u.gendir = "%s/gen-%s" % (d, u.name); os.makedirs(u.gendir, exist_ok=True); u.gen(u.gendir)
        exe, err = build_native(u, d)
        write_inputs(d + "/replay.in", rp["params"], rp["inputs"])
        v, o = native_run(exe, rp["entry"], d + "/replay.in", d)
        print(o); print("replay:", v)
        raise SystemExit(1 if v in ("violation", "hang") else 0)

    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    for u in units:
        if u.gen:
            u.gendir = "%s/gen-%s" % (d, u.name)
            os.makedirs(u.gendir, exist_ok=True)
            try:
                u.gen(u.gendir)
            except Exception as e:
                log("unit", u.name, "cannot be generated: %r" % e)  # it will not build, and is reported as not decided
    ex = cf.ThreadPoolExecutor(NPROC)
    fbc = {u.name: ex.submit(build_bc, u, d) for u in units}
    fnat = {u.name: ex.submit(build_native, u, d) for u in units if u.native}
    known = [k for k in json.load(open(HERE + "/known_findings.json"))["findings"] if k["property"] == pid and k.get("status") == "open"]

    tot = dict(paths=0, assumed=0, aborts=0, forks=0, insts=0, asserts=0, asserts_const=0, eq_pairs=0, eq_struct=0, eq_swept=0, sweep_queries=0, mem_checks=0, branch_queries=0, queries=0, q_sat=0, q_unsat=0, q_unknown=0, cache_hits=0)
    solver_s = 0.0
    funcs, covers, incomplete, not_built, joblog = set(), set(), [], [], []
    violations, unconfirmed, findings, samples_out = [], [], {}, []
    traces_ok = traces_bad = 0
    bad_traces = []
    done_jobs = complete_jobs = 0
    for u in units:
        bc, err = fbc[u.name].result()
        if not bc:
            not_built.append({"unit": u.name, "error": err[-1500:]})
            log("unit", u.name, "does not build; its jobs are not decided\n" + err[-1500:])
            continue
        left = budget - (time.time() - START)
        if left < 20:
            incomplete.append({"unit": u.name, "why": "time budget of the run used up"}); continue
        jd = "%s/res-%s" % (d, u.name)
        shutil.rmtree(jd, ignore_errors=True); os.makedirs(jd)
        by = {}
        lines = []
        for i, j in enumerate(u.run_jobs):
            jid = "j%d" % i
            by[jid] = j
            lines.append("%s %s %g %d %d %d %s" % (jid, j.entry, j.t, j.qms, j.samples, j.maxpaths, ",".join(map(str, j.params)) or "-"))
        t0 = time.time()
        p = subprocess.Popen([ENGINE, bc, jd, str(NPROC)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        try:
            so, se = p.communicate("\n".join(lines) + "\n", timeout=left)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); so, se = p.communicate()
        if se.strip():
            log("engine:", se.strip()[-2000:])
        native = None
        for i, (jid, j) in enumerate(by.items()):
            f = jd + "/" + jid + ".json"
            label = "%s:%s(%s)" % (u.name, j.entry, ",".join(map(str, j.params)))
            if not os.path.exists(f):
                incomplete.append({"job": label, "why": "no result"}); continue
            r = json.load(open(f))
            done_jobs += 1
            for k in tot:
                tot[k] += r[k]
            solver_s += r["solver_s"]
            funcs.update(r["functions"]); covers.update(r["covers"])
            if r["incomplete"]:
                incomplete.append({"job": label, "why": r["incomplete"]})
            elif j.maxpaths and r["paths"] >= j.maxpaths:
                incomplete.append({"job": label, "why": "path cap"})
            else:
                complete_jobs += 1
            joblog.append([label, r["paths"], round(r["secs"], 2), r["incomplete"]])
            if u.native and native is None:
                native, nerr = fnat[u.name].result()
                if not native:
                    log("native replay of", u.name, "does not build\n" + nerr[-1500:]); native = ""
            for k, (inp, tr) in enumerate(zip(r["samples"], r["sample_trace"])):
                if len(samples_out) < 4:
                    samples_out.append({"job": label, "inputs": inp if len(str(inp)) < 400 else str(inp)[:400]})
                if native:
                    fn = "%s/%s-s%d.in" % (jd, jid, k)
                    write_inputs(fn, j.params, inp)
                    v, o = native_run(native, j.entry, fn, jd)
                    nt = [int(x) for x in re.findall(r"^TRACE (\d+)$", o, re.M)]
                    if v == "ok" and nt == tr:
                        traces_ok += 1
                    else:
                        traces_bad += 1
                        bad_traces.append({"job": label, "verdict": v, "out": o[-300:], "engine": tr[:8], "native": nt[:8], "inputs": str(inp)[:300]})
            for k, vio in enumerate(r["violations"]):
                fn = "%s/%s-v%d.in" % (jd, jid, k)
                write_inputs(fn, j.params, vio["inputs"])
                ok, o = "unknown", ""
                if native:
                    ok, o = native_run(native, j.entry, fn, jd)
                    if ok != "violation" and vio["kind"] != "hang":
                        for tag, ext in ((".p", ["-O0", "-ftrivial-auto-var-init=pattern"]), (".z", ["-O0", "-ftrivial-auto-var-init=zero"])):
                            n2, e2 = build_native(u, d, tag, ext)
                            if n2:
                                ok2, o2 = native_run(n2, j.entry, fn, jd)
                                if ok2 == "violation":
                                    ok, o = ok2, o2; break
                rec = {"property": pid, "unit": u.name, "entry": j.entry, "params": j.params, "kind": vio["kind"], "msg": vio["msg"], "where": vio["where"], "inputs": vio["inputs"], "native": ok, "native_output": o[-1500:]}
                if ok == "violation" or (ok == "hang" and vio["kind"] == "hang"):
                    kf = [x for x in known if x["entry"] == j.entry and x["msg"] == vio["msg"] and ("where" not in x or x["where"] in vio["where"])]
                    if kf:
                        findings.setdefault(kf[0]["id"], (kf[0], rec)); continue
                    rp = "%s/%s.json" % (outdir, re.sub(r"[^A-Za-z0-9_.-]", "_", "%s-%s-%d" % (label, jid, k)))
                    json.dump(rec, open(rp, "w"), indent=1)
                    violations.append((rec, rp))
                else:
                    unconfirmed.append(rec)
        log("unit %-14s %3d jobs %7.1fs" % (u.name, len(u.run_jobs), time.time() - t0))
    ex.shutdown()

    dem = demangle(sorted(funcs)) if funcs else []
    mine = sorted({re.sub(r"<.*", "", x.split("(")[0]) for x in dem if "mbo::" in x.split("(")[0] and not x.startswith("std::")})
    expect_cov = getattr(P, "COVERS", [])
    missing_cov = [c for c in expect_cov if c not in covers] if not (only_unit or only_entry) else []
    cov = {
        "states": tot["paths"] + tot["aborts"], "transitions": tot["forks"] + tot["paths"],
        "traces_validated_against_impl": traces_ok, "samples": samples_out or [{"note": "no completed path sampled"}],
        "rule": "states: symbolic end states (completed paths and expected aborts), each covering every input satisfying its path condition; transitions: symbolic branch forks plus path completions; traces: solver-chosen inputs of completed paths re-run in a native ASan+UBSan build with all assertions and the recorded output trace agreeing",
        "bounds": P.BOUNDS, "outside_the_bounds": P.OUTSIDE,
        "jobs": done_jobs, "jobs_fully_explored": complete_jobs, "jobs_not_fully_explored": incomplete[:40], "units_not_built": not_built,
        "assertions_checked": tot["asserts"], "assertions_folded_to_constants": tot["asserts_const"], "memory_accesses_checked": tot["mem_checks"],
        "equivalence_goals": tot["eq_pairs"], "equivalence_goals_structural": tot["eq_struct"], "equivalence_goals_by_sweeping": tot["eq_swept"], "sweep_queries": tot["sweep_queries"],
        "smt_queries": tot["queries"], "smt_sat": tot["q_sat"], "smt_unsat": tot["q_unsat"], "smt_unknown": tot["q_unknown"], "smt_answers_from_cache_or_model_reuse": tot["cache_hits"], "solver_seconds": round(solver_s, 2),
        "ir_instructions": tot["insts"], "functions_encoded": mine[:400], "functions_encoded_count": len(mine),
        "trace_mismatches": bad_traces[:5], "unconfirmed_counterexamples": unconfirmed[:5], "covers": sorted(covers), "covers_missing": missing_cov, "known_findings": sorted(findings), "generated_headers": gen_note or "rendered from /repo",
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(P, "ASSUME", []) + ["clang 18's IR (-O1 front end, no optimisation beyond sroa/simplifycfg/early-cse) is the program that runs; the engine's IR semantics, z3 and the runtime stand-ins in lib/rt.cc are trusted; sampled paths are cross-checked natively"],
          "wall_s": round(time.time() - START, 2), "violations": len(violations)}
    if not only_unit and not only_entry:
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
    if "-v" in args:
        for j in sorted(joblog, key=lambda x: -x[2])[:60]:
            print("  ", *j)
    for x in incomplete[:12]:
        log("not fully explored:", json.dumps(x)[:300])
    for x in bad_traces[:6]:
        log("trace mismatch:", json.dumps(x)[:900])
    for x in unconfirmed[:6]:
        log("unconfirmed:", json.dumps({k: x[k] for k in ("unit", "entry", "params", "kind", "msg", "where", "native")})[:500], str(x["inputs"])[:300])
    if missing_cov:
        log("covers not reached:", missing_cov)
    for k, (kf, rec) in findings.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
    log("%s %s: jobs %d/%d complete, paths %d, asserts %d, goals %d, smt %d (%.1fs), traces ok %d bad %d" % (pid, tier, complete_jobs, sum(len(u.run_jobs) for u in units), tot["paths"], tot["asserts"], tot["eq_pairs"], tot["queries"], solver_s, traces_ok, traces_bad))
    if violations:
        for rec, rp in violations[:10]:
            log("violation: %s %s(%s): %s: %s at %s" % (rec["unit"], rec["entry"], ",".join(map(str, rec["params"])), rec["kind"], rec["msg"], rec["where"][:200]), str(rec["inputs"])[:300])
        print("VIOLATION property=%s replay=%s" % (pid, violations[0][1]), flush=True)
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
