#!/usr/bin/env python3
"""Decide one property by symbolic execution of /repo's current source.

  check.py C01 [--tier quick|thorough]      run the check, write evidence/C01.json
  check.py --replay FILE                    run a recorded counterexample again

Every run compiles /repo's working tree (and a harness from harness/) to LLVM
bitcode, executes it symbolically (engine/), and lets Z3 decide every branch
and every assertion.  A counterexample counts only if the very same harness,
compiled natively against /repo, fails on the values the solver returned.
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
import checks as C  # noqa: E402

ENGINE = os.path.join(HERE, "build", "symex")
NPROC = os.cpu_count() or 8


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def ensure_engine():
    r = sh(["make", "-s", "-j8", "-C", os.path.join(HERE, "engine")])
    if r.returncode != 0 or not os.path.exists(ENGINE):
        print(r.stdout)
        raise SystemExit(2)


def sources(serial):
    src = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    out = [s for s in src if serial or "/serialization/" not in s]
    out += sorted(glob.glob(REPO + "/third-party/*.cpp"))
    return out


class BuildError(Exception):
    pass


def compile_all(cmds):
    """cmds: list of (argv, output). Run in parallel; raise on the first failure."""
    def one(c):
        return c, sh(c)
    with ThreadPoolExecutor(NPROC) as ex:
        for c, r in ex.map(one, cmds):
            if r.returncode != 0:
                raise BuildError(" ".join(c) + "\n" + r.stdout[-4000:])


BASE = ["clang++", "-std=c++20", "-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w",
        "-gline-tables-only", "-fno-access-control", "-DVP_SYMBOLIC", "-c", "-emit-llvm"]
PRE = ["-include", HERE + "/runtime/prelude.h"]


def runtime_objects():
    """Bitcode of runtime/, which does not depend on /repo: built once (setup_cmd) and kept in build/"""
    files = ["runtime.cpp", "stream.cpp", "syserr.cpp", "libc.c"]
    h = hashlib.sha256(repr(BASE + PRE).encode())
    for f in files + ["prelude.h"]:
        h.update(open(HERE + "/runtime/" + f, "rb").read())
    out = os.path.join(HERE, "build", "rt-" + h.hexdigest()[:16])
    objs = [os.path.join(out, f + ".bc") for f in files]
    if not all(os.path.exists(o) for o in objs):
        os.makedirs(out, exist_ok=True)
        cmds = []
        for f, o in zip(files, objs):
            fl = ["clang"] + [x for x in BASE[1:] if not x.startswith("-std")] if f.endswith(".c") else BASE + PRE + ["-I" + HERE + "/harness"]
            cmds.append(fl + ["-fno-builtin", HERE + "/runtime/" + f, "-o", "%s.%d" % (o, os.getpid())])
        compile_all(cmds)
        for o in objs:
            os.rename("%s.%d" % (o, os.getpid()), o)
    return objs


def build_bitcode(harness, serial, work, cache=None):
    """LLVM bitcode of /repo's sources + harness + the library stand-ins."""
    out = os.path.join(work, "bc")
    os.makedirs(out, exist_ok=True)
    inc = ["-I" + REPO + "/src", "-I" + REPO + "/third-party", "-I" + HERE + "/harness"]
    if serial:
        gen = os.path.join(work, "stubs", "liblevenshtein", "proto")
        os.makedirs(gen, exist_ok=True)
        r = sh([sys.executable, HERE + "/harness/protostub.py", REPO + "/proto/liblevenshtein.proto", gen + "/liblevenshtein.pb.h"])
        if r.returncode != 0:
            raise BuildError(r.stdout)
        inc = ["-I" + os.path.join(work, "stubs"), "-I" + HERE + "/harness/stubs"] + inc
    cmds, objs = [], []
    todo = sources(serial) if not cache else []
    for k, s in enumerate(todo + [HERE + "/harness/" + harness]):
        o = os.path.join(out, "%d.bc" % k)
        cmds.append(BASE + inc + PRE + [s, "-o", o])
        objs.append(o)
    compile_all(cmds)
    if cache is not None:
        cache.extend(objs[:-1])
        objs = cache + objs[-1:]
    bc = os.path.join(work, "prog.bc")
    r = sh(["llvm-link"] + objs + runtime_objects() + ["-o", bc])
    if r.returncode != 0:
        raise BuildError(r.stdout)
    return bc


NATIVE = {}  # objects of the sources, shared by the harnesses of a check


def build_native(harness, serial, work, flavour):
    """The same harness as an ordinary program. flavour: asan, plain, tsan, hash"""
    out = os.path.join(work, "nat-" + flavour)
    exe = os.path.join(out, "prog")
    if os.path.exists(exe):
        return exe
    os.makedirs(out, exist_ok=True)
    san = {"asan": ["-fsanitize=address", "-fno-omit-frame-pointer"], "tsan": ["-fsanitize=thread", "-DVP_TSAN"],
           "plain": [], "hash": ["-fsanitize=address", "-DVP_HASH_CONST"]}[flavour]
    fl = ["g++", "-std=c++20", "-O1", "-w", "-g1"] + san
    inc = ["-I" + REPO + "/src", "-I" + REPO + "/third-party", "-I" + HERE + "/harness"]
    extra, libs = [], ["-lpthread"]
    if serial:
        gen = os.path.join(work, "pb")
        os.makedirs(gen + "/liblevenshtein/proto", exist_ok=True)
        if not os.path.exists(gen + "/liblevenshtein/proto/liblevenshtein.pb.cc"):
            r = sh(["protoc", "--proto_path=" + REPO + "/proto", "--cpp_out=" + gen + "/liblevenshtein/proto", REPO + "/proto/liblevenshtein.proto"])
            if r.returncode != 0:
                raise BuildError(r.stdout)
        inc.append("-I" + gen)
        extra.append(gen + "/liblevenshtein/proto/liblevenshtein.pb.cc")
        libs.append("-lprotobuf")
    cmds, objs = [], []
    src = sources(serial)
    if flavour == "hash":
        src = [s for s in src if "/third-party/" not in s]
    common = NATIVE.get((serial, flavour), [])
    for k, s in enumerate([HERE + "/harness/" + harness] + ([] if common else src + extra + [HERE + "/harness/vp_native.cpp"])):
        o = os.path.join(out, "%d.o" % k)
        cmds.append(fl + inc + ["-c", s, "-o", o])
        objs.append(o)
    compile_all(cmds)
    NATIVE.setdefault((serial, flavour), objs[1:])
    r = sh(["g++"] + san + objs + common + libs + ["-o", exe + ".tmp"])
    if r.returncode != 0:
        raise BuildError(r.stdout)
    os.rename(exe + ".tmp", exe)
    return exe


def run_native(exe, inputs, params, work, timeout=60, wrap=(), env=None):
    """-> (outcome, text): ok | fail | mismatch | timeout"""
    fd, path = tempfile.mkstemp(dir=work)
    with os.fdopen(fd, "w") as f:
        f.write("\n".join(str(v) for v in inputs) + "\n")
    e = dict(os.environ, VP_INPUT=path, VP_PARAMS=" ".join("%s=%s" % kv for kv in params.items()), VP_WORK=work,
             ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:abort_on_error=0",
             TSAN_OPTIONS="halt_on_error=1:exitcode=66")
    e.update(env or {})
    try:
        r = subprocess.run(list(wrap) + [exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=work)
        rc, text = r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        rc, text = None, (x.stdout or b"").decode("utf8", "replace")
    os.unlink(path)
    if rc is None:
        return "timeout", text
    if rc == 0:
        return "ok", text
    if rc == 78:
        return "mismatch", text
    return "fail", text


def confirm(v, run, chk, work):
    """Replay a counterexample on the real code. -> (confirmed, flavour, output)"""
    inputs = [i["value"] for i in v["inputs"]]
    params = run["params"]
    serial, h = chk.get("serial", False), run.get("harness", chk.get("harness"))
    kind = v["kind"]
    tries = []
    if kind == "race":
        tries += [("tsan", (), {"VP_JITTER": str(j)}) for j in range(0, 40)]
    elif kind == "uninit":
        tries += [("plain", ("valgrind", "-q", "--error-exitcode=99", "--leak-check=no"), {})]
        tries += [("asan", (), {})]
    elif kind == "nontermination":
        # the address space is limited: endless work often allocates endlessly
        tries.append(("plain", ("prlimit", "--as=4000000000"), {}))
    else:
        lay = run.get("layout", 0)
        if run.get("hash") == "const":
            tries.append(("hash", (), {}))
        if lay:
            tries += [("plain", (), {"VP_LAYOUT": "1"})]
        tries.append(("asan", (), {}))
        if run.get("threads"):
            tries += [("asan", (), {"VP_JITTER": str(j)}) for j in range(1, 60)]
    last = ""
    for fl, wrap, env in tries:
        try:
            exe = build_native(h, serial, work, fl)
        except BuildError as x:
            last = str(x)
            continue
        out, text = run_native(exe, inputs, params, work, wrap=wrap, env=env, timeout=60 if kind != "nontermination" else 30)
        last = text
        if out == "fail" or (out == "timeout" and kind in ("nontermination", "deadlock")):
            return True, fl, out + "\n" + text
    return False, None, last


def run_engine(bc, run, outdir, budget, jobs):
    cmd = [ENGINE, bc, "--out", outdir, "--prefix", REPO + "/", "--jobs", str(jobs), "--max-time", str(budget),
           "--max-viol", "8", "--hash", run.get("hash", "real"), "--layout", str(run.get("layout", 0)),
           "--preempt", str(run.get("preempt", 2)), "--dump-smt", str(run.get("dump", 2))]
    if run.get("max_steps"):
        cmd += ["--max-steps", str(run["max_steps"])]
    for k, v in run["params"].items():
        cmd += ["-p", "%s=%d" % (k, v)]
    try:
        r = sh(cmd, timeout=budget + 120)
        rc, log = r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        rc, log = -1, str(x)
    try:
        st = json.load(open(os.path.join(outdir, "stats.json")))
    except Exception:
        st = None
    viols = []
    for f in sorted(glob.glob(outdir + "/viol-*.json")):
        try:
            viols.append(json.load(open(f)))
        except Exception:
            pass
    rd = lambda n: [l.rstrip("\n") for l in open(outdir + "/" + n, errors="replace")] if os.path.exists(outdir + "/" + n) else []
    return rc, log, st, viols, rd("samples.txt"), sorted(set(rd("covers.txt"))), rd("inconclusive.txt")


def cross_check(outdir, limit):
    """Ask two other solvers the dumped queries. -> (asked, disagreements)"""
    asked, bad = 0, []
    files = sorted(glob.glob(outdir + "/q*.smt2"))[:limit]

    def one(f):
        want = open(f).readline().split()[-1]
        got = []
        for s in (["z3-new", "-T:20", f], ["cvc5", "--tlimit=20000", f]):
            try:
                got.append(sh(s, timeout=40).stdout.split("\n")[0].strip())
            except Exception:
                got.append("timeout")
        return f, want, got
    with ThreadPoolExecutor(NPROC) as ex:
        for f, want, got in ex.map(one, files):
            asked += 1
            for g in got:
                if g in ("sat", "unsat") and want in ("sat", "unsat") and g != want:
                    bad.append((f, want, got))
    return asked, bad


def known_findings():
    p = os.path.join(HERE, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="only runs whose name contains this")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--setup", action="store_true", help="build the engine and the stand-ins")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        return replay(a.replay)
    if a.setup:
        ensure_engine()
        runtime_objects()
        return 0
    chk = C.CHECKS[a.prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    runs = [r for r in chk["runs"] if r.get("tier", "quick") == "quick" or tier == "thorough"]
    if a.only:
        runs = [r for r in runs if a.only in r["name"]]
    total_budget = a.budget or (chk.get("budget_s", 400) if tier == "quick" else chk.get("thorough_budget_s", 3000))
    ensure_engine()
    work = tempfile.mkdtemp(prefix="vp-%s-" % a.prop)
    os.chmod(work, 0o755)
    code = 2
    try:
        code = decide(a, chk, tier, seed, runs, total_budget, work, t0)
    except BuildError as x:
        print("BUILD-ERROR: the sources or the harness do not compile\n" + str(x))
        code = 2
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    return code


def decide(a, chk, tier, seed, runs, total_budget, work, t0):
    prop = a.prop
    serial = chk.get("serial", False)
    harnesses = []
    for r in runs:
        h = r.get("harness", chk.get("harness"))
        if h not in harnesses:
            harnesses.append(h)
    if any(r.get("hunt") for r in runs) and chk["harness"] not in harnesses:
        harnesses.append(chk["harness"])
    bcs, natives, notes = {}, {}, []
    tb = time.time()
    shared = []
    for h in harnesses:
        hw = os.path.join(work, h.replace(".cpp", ""))
        os.makedirs(hw, exist_ok=True)
        try:
            bcs[h] = build_bitcode(h, serial, hw, shared)
        except BuildError as x:
            if h == chk.get("harness"):
                raise
            # a harness of its own for internal classes: their interface may have changed
            bcs[h] = None
            notes.append("harness %s does not compile against these sources: %s" % (h, str(x)[-600:]))
    build_s = time.time() - tb
    confirmed, unconfirmed, known_hit, suspects = [], [], {}, []
    per_run, inconclusive, samples, funcs, covers_all = [], [], [], {}, {}
    lines = {}
    tot = dict(paths=0, killed=0, forks=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, solver_s=0.0,
               asserts=0, asserts_by_solver=0, asserts_by_simplifier=0, unexplored=0, violations=0, sched_points=0)
    validated = mismatches = asked = 0
    disagreements = []
    kf = [k for k in known_findings().get("known", []) if k["property"] == prop]
    for idx, run in enumerate(runs):
        h = run.get("harness", chk.get("harness"))
        hw = os.path.join(work, h.replace(".cpp", ""))
        left = total_budget - (time.time() - t0)
        if left < 5:
            inconclusive.append("%s: not started, the time budget was used up" % run["name"])
            per_run.append({"run": run["name"], "started": False})
            continue
        if bcs[h] is None:
            inconclusive.append("%s: its harness does not compile against these sources" % run["name"])
            per_run.append({"run": run["name"], "started": False})
            continue
        outdir = os.path.join(work, "out%d" % idx)
        rc, log, st, viols, smp, covers, inc = run_engine(bcs[h], run, outdir, min(left, run.get("budget_s", max(60, left / 3) if tier == "quick" else 1e9)), NPROC)
        if st is None:
            inconclusive.append("%s: the engine ended without statistics (rc %s): %s" % (run["name"], rc, log[-300:]))
            per_run.append({"run": run["name"], "started": True, "completed": False})
            continue
        for k in tot:
            tot[k] += st.get(k, 0)
        for f, l in st.get("functions", {}).items():
            funcs.setdefault(f.replace(REPO + "/", ""), set()).update(l)
        for f, (hit, n, miss) in st.get("lines", {}).items():
            f = f.replace(REPO + "/", "")
            m = set(miss)
            lines[f] = (n, lines[f][1] & m if f in lines else m)
        complete = st["unexplored"] == 0 and not st.get("lost") and not inc and not st.get("stopped")
        for l in inc[:5]:
            inconclusive.append("%s: %s" % (run["name"], l))
        if st["unexplored"] or st.get("lost"):
            inconclusive.append("%s: stopped at its time budget with %d open paths" % (run["name"], st["unexplored"]))
        for c in run.get("covers", []):
            if c not in covers and not viols:
                notes.append("%s: reachability witness '%s' not met (the run may be vacuous there)" % (run["name"], c))
        covers_all[run["name"]] = covers
        q, bad = cross_check(outdir, 4 if tier == "quick" else 40)
        asked += q
        disagreements += bad
        per_run.append({"run": run["name"], "bounds": run.get("bounds", ""), "params": run["params"], "hash": run.get("hash", "real"),
                        "completed": bool(complete), "paths": st["paths"], "queries": st["queries"], "assertions": st["asserts"],
                        "assertions_by_solver": st["asserts_by_solver"], "solver_s": round(st["solver_s"], 3),
                        "instructions": st["instructions"], "wall_s": round(st["wall_s"], 3), "covers": covers})
        seen = set()
        for v in viols:
            key = (v["kind"], v["msg"] if v["kind"] == "assert" else v["where"])
            ok, fl, text = confirm(v, run, chk, hw)
            rec = {"property": prop, "run": run["name"], "harness": h, "serial": serial, "params": run["params"], "hash": run.get("hash", "real"),
                   "layout": run.get("layout", 0), "threads": run.get("threads", False), "kind": v["kind"], "message": v["msg"], "where": v["where"],
                   "inputs": v["inputs"], "stack": v.get("stack", [])[:12], "schedule": v.get("notes", []), "native": fl, "native_output": text[-3000:]}
            if ok:
                match = [k for k in kf if k.get('run', run['name']) == run['name'] and re.search(k["match_output"], text, re.S) and (not k.get("message") or k["message"] in v["msg"])]
                if match:
                    known_hit.setdefault(match[0]["id"], rec)
                elif run.get("hunt"):
                    if not any(r is run for r, _ in suspects):
                        suspects.append((run, rec))
                elif key not in seen:
                    confirmed.append(rec)
                    seen.add(key)
            else:
                unconfirmed.append(rec)
        # replay sampled paths natively: the engine must agree with the compiled program
        if not confirmed:
            for s in smp:
                if len(samples) < 12:
                    try:
                        samples.append({"run": run["name"], **json.loads(s)})
                    except Exception:
                        pass
        if confirmed and tier == "quick":
            break
        run["_samples"] = smp
    # A part that no longer does what it is expected to counts only when a use of
    # the whole library shows it
    for run, rec in suspects:
        if confirmed:
            break
        for k, hunt in enumerate(run["hunt"]):
            h = hunt.get("harness", chk.get("harness"))
            hw = os.path.join(work, h.replace(".cpp", ""))
            left = total_budget + 300 - (time.time() - t0)
            if left < 10 or bcs.get(h) is None:
                break
            rc, log, st, viols, smp, covers, inc = run_engine(bcs[h], hunt, os.path.join(work, "hunt%d-%d" % (suspects.index((run, rec)), k)), min(left, hunt.get("budget_s", 100)), NPROC)
            per_run.append({"run": hunt["name"], "bounds": hunt.get("bounds", ""), "params": hunt["params"], "because_of": run["name"] + ": " + rec["message"],
                            "paths": st["paths"] if st else 0, "queries": st["queries"] if st else 0})
            for v in viols:
                ok, fl, text = confirm(v, hunt, chk, hw)
                if ok:
                    confirmed.append({"property": prop, "run": hunt["name"], "harness": h, "serial": serial, "params": hunt["params"], "hash": hunt.get("hash", "real"),
                                      "layout": hunt.get("layout", 0), "threads": False, "kind": v["kind"], "message": v["msg"], "where": v["where"], "inputs": v["inputs"],
                                      "stack": v.get("stack", [])[:12], "schedule": v.get("notes", []), "native": fl, "native_output": text[-3000:], "first_seen_in": rec})
                    break
            if confirmed:
                break
        if not confirmed:
            unconfirmed.append(rec)
            notes.append("%s: fails (%s), but no query searched shows a wrong result" % (run["name"], rec["message"]))
    # agreement with the compiled program
    if not confirmed and not run_skip_native(chk):
        for h in harnesses:
            if bcs[h] is None:
                continue
            hw = os.path.join(work, h.replace(".cpp", ""))
            try:
                exe = build_native(h, serial, hw, "asan")
            except BuildError as x:
                notes.append("native build failed: " + str(x)[-500:])
                continue
            jobs = []
            for run in runs:
                if run.get("harness", chk.get("harness")) != h:
                    continue
                smp = run.get("_samples", [])
                keep = smp if tier == "thorough" else (smp[:2] + smp[-6:] if len(smp) > 8 else smp)
                for s in keep:
                    try:
                        jobs.append((run, json.loads(s)))
                    except Exception:
                        pass

            def one(j):
                run, s = j
                ins = [i["value"] for i in s["inputs"]]
                out, text = run_native(exe, ins, run["params"], hw, timeout=60)
                return run, s, out, text
            with ThreadPoolExecutor(NPROC) as ex:
                for run, s, out, text in ex.map(one, jobs):
                    if out == "ok":
                        validated += 1
                    else:
                        mismatches += 1
                        notes.append("sampled path of %s: the compiled program says %s: %s" % (run["name"], out, text[-300:]))
    code = 0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for old in glob.glob(os.path.join(HERE, "replays", prop + "-*.json")):
        os.unlink(old)
    for k, rec in enumerate(confirmed):
        path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, k))
        json.dump(rec, open(path, "w"), indent=1)
        print("counterexample (%s, %s): %s" % (rec["run"], rec["kind"], rec["message"]))
        print("  at " + rec["where"])
        print("  inputs " + " ".join("%s=%d" % (i["name"], i["value"]) for i in rec["inputs"]))
        for l in rec["native_output"].strip().split("\n")[-6:]:
            print("  | " + l[:200])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    for k in kf:
        if k["id"] in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for u in unconfirmed:
        print("UNCONFIRMED (not reported): %s: %s at %s" % (u["run"], u["message"], u["where"]))
    for i in inconclusive:
        print("INCONCLUSIVE: " + i)
    for d in disagreements:
        print("SOLVER-DISAGREEMENT: %s" % (d,))
    for n in notes:
        print("note: " + n)
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": chk.get("level", "model_checking"),
        "coverage": {
            "states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": validated, "samples": samples[:12],
            "explanation": "states = symbolic paths run to their end; transitions = points where both outcomes of a symbolic decision were feasible and explored; "
                           "every path stands for all inputs satisfying its path condition",
            "functions_encoded": {f: sorted(v) for f, v in sorted(funcs.items())},
            "functions_encoded_count": sum(len(v) for v in funcs.values()),
            "lines_executed": {f: "%d/%d" % (n - len(m), n) for f, (n, m) in sorted(lines.items()) if n - len(m)},
            "instructions_executed": tot["instructions"],
            "queries_discharged": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"],
            "query_cache_hits": tot["cache_hits"], "solver_s": round(tot["solver_s"], 3),
            "assertions_decided": tot["asserts"], "assertions_decided_by_solver_query": tot["asserts_by_solver"],
            "assertions_decided_by_rewriting_under_path_condition": tot["asserts_by_simplifier"],
            "queries_cross_checked_with_z3new_and_cvc5": asked, "solver_disagreements": len(disagreements),
            "sampled_paths_disagreeing_with_compiled_program": mismatches,
            "runs": per_run, "bounds": chk.get("bounds", ""), "outside_bounds": chk.get("outside", ""),
            "exhaustive": not inconclusive and not confirmed, "inconclusive": inconclusive, "notes": notes,
            "known_findings_seen": [{"id": k, "inputs": v["inputs"], "message": v["message"]} for k, v in known_hit.items()],
            "unconfirmed_counterexamples": unconfirmed[:5], "build_s": round(build_s, 2),
        },
        "assumptions": C.ASSUMPTIONS + chk.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d paths, %d assertions (%d by query), %d queries, solver %.1f s, %d traces replayed, wall %.1f s -> %s" % (
        prop, tier, tot["paths"], tot["asserts"], tot["asserts_by_solver"], tot["queries"], tot["solver_s"], validated, wall,
        "VIOLATED" if code else "held" + (" (partly inconclusive)" if inconclusive else "")))
    return code


def run_skip_native(chk):
    return chk.get("skip_native", False)


def replay(path):
    rec = json.load(open(path))
    work = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        run = {"params": rec["params"], "hash": rec["hash"], "layout": rec["layout"], "threads": rec.get("threads")}
        ok, fl, text = confirm(rec, run, {"serial": rec["serial"], "harness": rec["harness"]}, work)
        print(text)
        print("reproduced" if ok else "not reproduced")
        return 1 if ok else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
