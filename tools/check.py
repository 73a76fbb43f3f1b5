#!/usr/bin/env python3
"""Decide one property of simmons/cbm by symbolic execution of the real code.

usage: check.py PROPERTY [--tier quick|thorough]        (normal use)
       check.py --replay FILE                           (re-run a reported counterexample natively)

Every run regenerates the LLVM IR of harness + cbm + std from /repo's current tree, explores the harnesses of
PROPERTY with the symx engine (z3 decides every branch and every assertion over all inputs within the bounds),
re-executes counterexamples and sampled witnesses natively against the real crate, and writes
/verif/evidence/PROPERTY.json.

exit 0: held on everything explored; 1: violation (VIOLATION line); 3: no verdict (build failure, incomplete
exploration, engine/native disagreement).
"""
import concurrent.futures as cf
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
NPROC = os.cpu_count() or 4
sys.path.insert(0, HERE)
import props  # noqa: E402

ENV = dict(os.environ)
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
ENV.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")


class NoVerdict(Exception):
    pass


def run(cmd, what, env=ENV, **kw):
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise NoVerdict("%s failed:\n%s" % (what, r.stdout[-6000:]))
    return r.stdout


def build_engine():
    run(["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(VERIF, "engine/Cargo.toml"),
         "--target-dir", os.path.join(BUILD, "engine")], "engine build")
    return os.path.join(BUILD, "engine/release/symx")


def bdir(cli):
    return os.path.join(BUILD, "cli") if cli else BUILD


def program_source():
    """The command-line program's source with an entry point the harness can call."""
    repo = re.search(r'cbm = \{ path = "([^"]+)"', open(os.path.join(VERIF, "harness/Cargo.toml")).read()).group(1)
    src = os.path.join(repo, "src/bin/cdisk.rs")
    if not os.path.exists(src):
        raise NoVerdict("no program source at %s" % src)
    out = os.path.join(bdir(True), "cdisk_main.rs")
    t = open(src).read() + """
pub extern "C" fn vx_entry() -> i32 {
    let c = std::process::Termination::report(main());
    let r: u8 = unsafe { std::mem::transmute(c) };
    let _ = std::io::Write::flush(&mut std::io::stdout());
    r as i32
}
"""
    if not os.path.exists(out) or open(out).read() != t:
        open(out, "w").write(t)


def build_ir(cli=False):
    out = run([sys.executable, os.path.join(HERE, "genir.py"), bdir(cli)] + (["cli"] if cli else []), "IR generation")
    return out.strip().splitlines()[-1]


def build_replay(cli=False):
    run(["cargo", "build", "--profile", "replay", "--offline", "--bin", "replay", "--manifest-path",
         os.path.join(BUILD, "harness/Cargo.toml"), "--target-dir", os.path.join(bdir(cli), "replay")] + (["--features", "cli"] if cli else []), "replayer build")
    return os.path.join(bdir(cli), "replay/replay/replay")


def build_all(cli=False):
    for d in {BUILD, bdir(cli)}:
        os.makedirs(d, exist_ok=True)
        link = os.path.join(d, "harness")
        if not os.path.islink(link):
            os.symlink(os.path.join(VERIF, "harness"), link)
    if cli:
        program_source()
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(build_engine), ex.submit(build_ir, cli), ex.submit(build_replay, cli)]
        return [f.result() for f in fs]


def write_replay(path, job, v):
    with open(path, "w") as f:
        f.write("# %s: %s\n" % (v["kind"], v["msg"].replace("\n", " ")))
        f.write("harness %s\nparams %s\n" % (job["h"], ",".join(map(str, job["p"]))))
        for n, h in v["inputs"]:
            f.write("input %s %s\n" % (n, h))


def native(replay_bin, path, timeout=60):
    """-> (outcome, output lines)"""
    d = tempfile.mkdtemp(prefix="cbmreplay")
    try:
        r = subprocess.run([replay_bin, os.path.abspath(path)], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        out = r.stdout.decode(errors="replace").splitlines()
        rc = r.returncode
        if rc == 0 and "COMPLETED" in out:
            return "ok", out
        if rc == 1 and any(l.startswith("ASSERT-FAILED") for l in out):
            return "assert", out
        if rc == 77:
            return "assume", out
        if rc in (101, -6, 134) or any(l.startswith("PANIC") for l in out):
            return "panic", out
        if rc in (-11, -7, 139, 135):
            return "fault", out
        return "other(%s)" % rc, out
    except subprocess.TimeoutExpired:
        return "hang", []
    finally:
        shutil.rmtree(d, ignore_errors=True)


def expand(job):
    n = job.get("shards", 1)
    return [dict(job, shard=(i, n)) for i in range(n)]


def run_symx(symx, job, idx, tier, seed, tmp, deadline, stop):
    out = os.path.join(tmp, "r%d.json" % idx)
    left = deadline - time.time()
    if left < 1:
        return {"complete": False, "errors": ["time budget of the check exhausted"], "violations": [], "samples": []}
    tl = min(job.get("tl", 1e9), left)
    bd = bdir(job.get("cli"))
    cmd = [symx, "--ll", os.path.join(bd, "prog.ll"), "--names", os.path.join(bd, "names.txt"), "--entry", job["h"],
           "--params", ",".join(map(str, job["p"])), "--time-limit", "%.1f" % tl, "--seed", str(seed),
           "--max-steps", str(job.get("steps", 400_000_000)), "--samples", str(job.get("samples", 2)), "--out", out,
           "--query-timeout-ms", str(job.get("qto", 120_000))]
    for k in ("ite_limit", "enum_cap"):
        if k in job:
            cmd += ["--" + k.replace("_", "-"), str(job[k])]
    if job.get("hash_const", True):
        cmd.append("--hash-const")
    if job["shard"][1] > 1:
        cmd += ["--shard", "%d/%d" % job["shard"], "--shard-depth", str(job.get("shard_depth", 6))]
    if tier == "thorough":
        cmd += ["--dump-unsat", tmp + "/smt", "17", "8"]
    pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    end, so = time.time() + tl + 150, ""
    while True:
        try:
            so = pr.communicate(timeout=1)[0]
            break
        except subprocess.TimeoutExpired:
            if stop or time.time() > end:
                pr.kill()
                pr.communicate()
                # a violation found elsewhere decides the check
                return None if stop else {"complete": False, "errors": ["engine timeout"], "violations": [], "samples": []}
    try:
        return json.load(open(out))
    except Exception:
        return {"complete": False, "errors": ["engine failed (rc %s): %s" % (pr.returncode, so[-2000:])], "violations": [],
                "samples": []}


def known(pid):
    res = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p))["findings"]:
            if k["property"] == pid and k["status"] == "known":
                res.append(k)
    return res


def is_known(kf, job, v):
    for k in kf:
        m = k["match"]
        if m["harness"] == job["h"] and (m.get("params") is None or m["params"] == job["p"]) and m["kind"] == v["kind"] \
                and re.search(m["msg"], v["msg"]):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true", help="build everything, check nothing")
    ap.add_argument("--only", help="run only this harness (development)")
    ap.add_argument("--no-build", action="store_true", help="reuse the previous build (development)")
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        build_all()
        return 0
    if a.replay:
        _, _, rb = build_all("harness h_cli" in open(a.replay).read())
        o, lines = native(rb, a.replay)
        print("\n".join(lines))
        print("outcome:", o)
        return 0 if o == "ok" else 1
    pid, tier = a.property, a.tier
    spec = props.PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    os.makedirs(EVID, exist_ok=True)
    for f in glob.glob(os.path.join(EVID, "replay_%s_*" % pid)):
        os.unlink(f)
    if a.no_build:
        symx, irinfo, rb = os.path.join(BUILD, "engine/release/symx"), "reused", os.path.join(bdir(spec.get("cli")), "replay/replay/replay")
    else:
        symx, irinfo, rb = build_all(spec.get("cli"))
    t_build = time.time() - t0
    jobs = [j for j in spec["jobs"](tier) if not a.only or j["h"] == a.only]
    subs = [s for j in jobs for s in expand(j)]
    subs_o = sorted(range(len(subs)), key=lambda i: -subs[i].get("cost", 1))
    budget = 720 if tier == "quick" else 6 * 3600
    deadline = t0 + budget
    tmp = tempfile.mkdtemp(prefix="symx", dir=BUILD)
    os.makedirs(tmp + "/smt")
    kf = known(pid)
    errors, viols, knowns, results = [], [], {}, [None] * len(subs)
    validated, mism, skipped = 0, [], []
    try:
        with cf.ThreadPoolExecutor(NPROC) as ex:
            stop, slow = [], []
            def work(i):
                if stop:
                    return None
                if subs[i].get("opt") and slow.count(subs[i]["h"]) >= 3:
                    return {"complete": False, "errors": ["not tried"], "violations": [], "samples": []}
                r = run_symx(symx, subs[i], i, tier, seed, tmp, deadline, stop)
                if r is None:
                    return None
                if subs[i].get("opt") and not r["complete"]:
                    slow.append(subs[i]["h"])
                for v in r["violations"]:
                    if not is_known(kf, subs[i], v):
                        stop.append(1)
                return r
            futs = {ex.submit(work, i): i for i in subs_o}
            for f in cf.as_completed(futs):
                results[futs[f]] = f.result()
        # counterexamples are replayed against the real code
        nrep = 0
        for s, r in zip(subs, results):
            if r is None:
                continue
            for v in r["violations"]:
                path = os.path.join(EVID, "replay_%s_%d.txt" % (pid, nrep))
                nrep += 1
                write_replay(path, s, v)
                o, lines = native(rb, path)
                ok = {"assert": o == "assert", "panic": o == "panic", "abort": o in ("panic", "fault"), "hang": o == "hang",
                      "stack-overflow": o in ("fault", "panic", "other(-6)"), "readonly-store": o == "fault", "memory": o in ("fault", "panic")}.get(
                          v["kind"], o not in ("ok", "assume"))
                if not ok and o in ("assert", "panic"):
                    ok = True  # fails natively, though in a different way
                if not ok:
                    errors.append("counterexample of %s %s not reproduced natively: engine %s (%s), native %s" % (
                        s["h"], s["p"], v["kind"], v["msg"], o))
                    continue
                v["native"] = ([l for l in lines if l.startswith(("ASSERT", "PANIC"))] or [o])[0]
                k = is_known(kf, s, v)
                if k:
                    knowns[k["id"]] = k
                else:
                    viols.append((s, v, path))
            if not r["complete"] and not r["violations"] and s.get("opt"):
                # an extra run beyond the stated bounds that does not get through in its time
                skipped.append("%s %s" % (s["h"], s["p"]))
                r["samples"] = []
                continue
            if not r["complete"] and not r["violations"]:
                errors.append("%s %s shard %s: %s" % (s["h"], s["p"], s["shard"], "; ".join(r["errors"][:3])))
        # sampled witnesses: engine and native execution must agree on every noted value
        if not viols:
            work = []
            for i, (s, r) in enumerate(zip(subs, results)):
                for j, v in enumerate((r or {}).get("samples", [])):
                    p = os.path.join(tmp, "s%d_%d.txt" % (i, j))
                    write_replay(p, s, v)
                    work.append((s, v, p))
            with cf.ThreadPoolExecutor(NPROC) as ex:
                for (s, v, p), (o, lines) in zip(work, ex.map(lambda w: native(rb, w[2]), work)):
                    notes = [l[5:] for l in lines if l.startswith("NOTE ")]
                    if o != "ok" or notes != v["notes"]:
                        mism.append((s["h"], s["p"], o))
                        errors.append("engine/native disagreement on a sampled path of %s %s: native %s, %s vs %s" % (
                            s["h"], s["p"], o, notes[:6], v["notes"][:6]))
                        shutil.copy(p, os.path.join(EVID, "replay_%s_mismatch.txt" % pid))
                    else:
                        validated += 1
            # reach witnesses: vacuous exploration is not a pass
            for j in jobs:
                if "%s %s" % (j["h"], j["p"]) in skipped:
                    continue
                got = {}
                for s, r in zip(subs, results):
                    if r and s["h"] == j["h"] and s["p"] == j["p"]:
                        for k, n in r.get("reach", {}).items():
                            got[int(k)] = got.get(int(k), 0) + n
                for w in j.get("reach", [1]):
                    if not got.get(w):
                        errors.append("witness %d of %s %s never reached (vacuous)" % (w, j["h"], j["p"]))
        # second solver on a sample of the unsat queries
        xs = {"checked": 0, "agreed": 0}
        if tier == "thorough":
            files = sorted(glob.glob(tmp + "/smt/*.smt2"))[:400]
            def cvc(f):
                try:
                    return subprocess.run(["cvc5", "--tlimit=60000", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                          timeout=90).stdout.strip().splitlines()
                except subprocess.TimeoutExpired:
                    return ["timeout"]
            with cf.ThreadPoolExecutor(NPROC) as ex:
                for f, o in zip(files, ex.map(cvc, files)):
                    xs["checked"] += 1
                    if o and o[-1] == "unsat":
                        xs["agreed"] += 1
                    elif o and o[-1] == "sat":
                        errors.append("cvc5 disagrees with z3 on %s" % f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    done = [r for r in results if r]
    tot = lambda k: sum(r.get(k, 0) for r in done)
    funcs = sorted({f for r in done for f in r.get("functions", []) if f.startswith("cbm::") or "cbm::" in f.split("::<")[0] or f.startswith("<cbm")})
    exts = sorted({f for r in done for f in r.get("externals", [])})
    complete = not errors and all(r is not None and (r["complete"] or s.get("opt")) for s, r in zip(subs, results))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths_ok") + tot("paths_violating") + tot("paths_assume"),
            "transitions": tot("instructions"),
            "traces_validated_against_impl": validated,
            "exhaustive_within_bounds": complete and not viols,
            "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
            "outside_bounds": spec["outside"],
            "what": "paths of the real code explored symbolically (states) / LLVM instructions executed (transitions); every branch and assertion decided by z3 over all input bytes",
            "paths_completed": tot("paths_ok"), "paths_cut_by_assumption": tot("paths_assume"), "forks": tot("forks"),
            "symbolic_input_bytes_max": max([r.get("symbolic_bytes", 0) for r in done] or [0]),
            "assertions_by_solver": tot("asserts_solver"), "assertions_folded_to_constants": tot("asserts_folded"),
            "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "query_cache_hits": tot("cache_hits"), "branch_feasibility_by_case_analysis": tot("cases"),
            "solver_time_s": round(tot("solver_s"), 2), "max_query_s": max([r.get("max_query_s", 0) for r in done] or [0]),
            "solver": (done[0].get("solver") if done else ""),
            "second_solver_cvc5": xs if tier == "thorough" else "thorough tier only",
            "harness_runs": [{"harness": j["h"], "params": j["p"], "shards": j.get("shards", 1),
                              "paths": sum(r.get("paths_ok", 0) for s, r in zip(subs, results) if r and s["h"] == j["h"] and s["p"] == j["p"])} for j in jobs],
            "functions_encoded": funcs, "modelled_externals": exts, "ir": irinfo, "build_s": round(t_build, 1),
            "samples": [{"harness": s["h"], "params": s["p"], "inputs": [[n, h[:80]] for n, h in v["inputs"]][:4], "notes": v["notes"][:8]}
                        for s, r in zip(subs, results) if r for v in r.get("samples", [])[:1]][:6],
            "known_findings": sorted(knowns),
            "errors": errors[:20],
            "extra_runs_not_completed": skipped,
        },
        "assumptions": props.COMMON_ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    if tot("expected"):
        pass
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(knowns):
        print("KNOWN-FINDING: property=%s %s" % (pid, knowns[k]["what"]))
    if viols:
        for s, v, path in viols:
            print("  %s %s: %s %s | native: %s" % (s["h"], s["p"], v["kind"], v["msg"], v["native"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("NO VERDICT for %s:" % pid)
        for e in errors[:20]:
            print("  " + e)
        return 3
    # listed findings must still be there; a finding that vanished is not an alarm
    c = ev["coverage"]
    print("OK %s (%s): %d paths, %d solver queries (%.1f s), %d assertions, %d traces validated natively, %.0f s" % (
        pid, tier, c["states"], c["queries"], c["solver_time_s"], c["assertions_by_solver"] + c["assertions_folded_to_constants"], validated, ev["wall_s"]))
    return 0


try:
    sys.exit(main())
except NoVerdict as e:
    print("NO VERDICT: %s" % e)
    sys.exit(3)
