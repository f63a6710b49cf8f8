#!/usr/bin/env python3
"""python3 check.py <property>  -- decides one property on /repo's current tree.

Builds the LLVM IR of the crate plus the property's harnesses, executes it symbolically (sx), replays every
counterexample natively, and writes evidence/<property>.json.  Exit 0: held on everything explored.  Exit 1: VIOLATION.
Anything else: the check could not do its work.
"""
import json, os, re, resource, subprocess, sys, time, tempfile, traceback
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build as B
import props as P

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
DEADLINE = T0 + (600 if TIER == "quick" else 6 * 3600)

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def native(so, entry, tape, params, timeout=60):
    """Runs a harness natively on a tape -> (verdict, message, logs)"""
    with tempfile.NamedTemporaryFile("w", suffix=".tape", delete=False) as f:
        f.write(" ".join(str(x) for x in tape))
    env = dict(os.environ, SX_TAPE=f.name, SX_PARAMS=",".join("%s=%d" % x for x in params.items()), RUST_BACKTRACE="0")
    try:
        p = subprocess.run([os.path.join(B.WORK, "runner"), so, entry], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limits)
        out, err, rc = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"), p.returncode
    except subprocess.TimeoutExpired as e:
        return "timeout", "still running after %d s" % timeout, []
    finally:
        os.remove(f.name)
    logs = [l[7:] for l in out.split("\n") if l.startswith("SX-LOG ")]
    if rc == 0 and "SX-END" in out:
        return "ok", "", logs
    if rc == 42:
        return "assert", re.search(r"SX-ASSERT (.*)", out).group(1), logs
    if rc == 43:
        return "assume", "", logs
    if rc < 0 or rc == 134:
        return "panic", err.strip()[-600:] or "signal %d" % -rc, logs
    return "error", "rc=%d %s %s" % (rc, out[-200:], err[-200:]), logs

def one(run, ll, outdir, i):
    t = run["t"]
    t = max(5, min(t, DEADLINE - time.time()))
    out = os.path.join(outdir, "r%d.json" % i)
    if os.path.exists(out):
        os.remove(out)
    cmd = [os.path.join(V, "sx", "target", "release", "sx"), ll, "--entry", run["entry"], "--out", out, "--time", str(t), "--steps", str(run.get("steps", 1_000_000_000)),
           "--samples", "3", "--max-viol", "4", "--seed", str(SEED)]
    if run.get("shard"):
        cmd += ["--shard", run["shard"]]
    for k, v in run["params"].items():
        cmd += ["--param", "%s=%d" % (k, v)]
    t1 = time.time()
    err = ""
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=t * 1.5 + 60, preexec_fn=limits)
        err = p.stderr.decode("utf8", "replace")[-400:]
    except subprocess.TimeoutExpired:
        err = "the symbolic executor did not stop"
    try:
        r = json.load(open(out))
    except Exception:
        r = dict(error="the symbolic executor gave no result: " + err, complete=False, violations=[], samples=[], paths=0, reach={}, crate_functions=[])
    r["wall"] = time.time() - t1
    return r

def known(prop):
    try:
        return [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == prop and k.get("status") != "fixed"]
    except FileNotFoundError:
        return []

def expand(prop):
    runs = []
    for r in prop["runs"]:
        t = 2 * r["quick"] if TIER == "quick" else r.get("thorough", r["quick"])
        if not t:
            continue
        for s in range(r.get("shards", 1)):
            x = dict(r, t=t, params=dict(dict(perm=3, orders=2), **r.get("params", {})))
            if r.get("shards", 1) > 1:
                x["shard"] = "%d/%d" % (s, r["shards"])
            runs.append(x)
    return runs

def main(pid):
    prop = P.PROPS[pid]
    runs = expand(prop)
    B.engine()
    mods = []
    for r in runs:
        if r["mod"] not in mods:
            mods.append(r["mod"])
    built, broken = {}, {}
    def mk(ms, real=False):
        return B.build(["h_" + m for m in ms], [c for m in ms for c in P.CHILDREN.get(m, [])], real=real)
    try:
        x = mk(mods)
        groups = [mods]
        for m in mods:
            built[m] = x
    except B.BuildError as e:
        msg = str(e)
        groups = []
        for m in mods:
            try:
                built[m] = mk([m])
                groups.append([m])
            except B.BuildError as e2:
                broken[m] = str(e2)[-1500:]
        if not built:
            print("the harnesses of %s do not build:\n%s" % (pid, msg))
            return 2
    outdir = os.path.join(B.WORK, "runs", pid)
    os.makedirs(outdir, exist_ok=True)
    reals = {}
    def real(m):
        if m not in reals:
            g = [g for g in groups if m in g][0]
            so = mk(g, True)[1]
            for y in g:
                reals[y] = so
        return reals[m]
    todo = [(i, r) for i, r in enumerate(runs) if r["mod"] in built]
    todo.sort(key=lambda x: -x[1]["t"])
    res = {}
    with ThreadPoolExecutor(int(os.environ.get("SX_JOBS", "8"))) as ex:
        fs = {i: ex.submit(one, r, built[r["mod"]][0], outdir, i) for i, r in todo}
        # the library without any shim, against which counterexamples and samples are confirmed too
        for m in built:
            real(m)
        for i in fs:
            res[i] = fs[i].result()
    problems, viols, knowns, validated, samples, notes = [], [], [], 0, [], []
    kf = known(pid)
    os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
    per = []
    for i, r in todo:
        d = res[i]
        so = built[r["mod"]][1]
        name = "%s(%s)%s" % (r["entry"], ",".join("%s=%d" % x for x in r["params"].items()), " shard " + r["shard"] if "shard" in r else "")
        per.append({k: d.get(k) for k in ("complete", "paths", "paths_ok", "paths_assumed_away", "paths_given_up", "gave_up", "instructions", "forks", "asserts", "asserts_concrete", "queries", "domain_decisions", "domain_audited", "linear_decisions", "linear_audited", "sat", "unsat", "unknown", "solver_s", "max_query_s", "wall_s", "reach", "error")})
        per[-1]["run"] = name
        per[-1]["bound"] = r.get("bound", "")
        if d.get("error"):
            problems.append("%s: %s" % (name, d["error"]))
        for s in d["samples"]:
            v, msg, logs = native(so, r["entry"], s["tape"], r["params"])
            if v == "ok" and logs == s["logs"]:
                validated += 1
            else:
                problems.append("%s: the executor and the native code disagree on %s: %s %s" % (name, s["tape"][:40], v, msg))
            if not any(isinstance(x, str) for x in s["tape"]):
                v, msg, logs = native(real(r["mod"]), r["entry"], s["tape"], r["params"])
                # (with perm = 1 the order of hash maps was fixed without a trace on the tape)
                if v == "ok" and (logs == s["logs"] or r["params"]["perm"] == 1):
                    validated += 1
                else:
                    problems.append("%s: the executor and the unmodified native code disagree on %s: %s %s" % (name, s["tape"][:40], v, msg))
            if len(samples) < 6 and s is d["samples"][0]:
                samples.append(dict(run=name, solver_chosen_input=s["tape"][:60], output=[x[:160] for x in s["logs"]][:4]))
        slow = False
        for v in sorted(d["violations"], key=lambda v: v["kind"] == "limit"):
            # what does not end takes long to confirm: once per run is enough, and none when there is a violation already and little time left
            if v["kind"] == "limit" and (slow or (viols and time.time() > T0 + 300)) or (TIER == "quick" and viols and time.time() > T0 + 600):
                notes.append("%s: a further counterexample, not replayed (%s)" % (name, v["msg"][:120]))
                continue
            slow = v["kind"] == "limit"
            got, msg, logs = native(so, r["entry"], v["tape"], r["params"])
            env = any(isinstance(x, str) for x in v["tape"])
            ok = got in ("assert", "panic") or (v["kind"] == "limit" and got == "timeout")
            if not ok and v.get("approx"):
                # the path went through a floating-point comparison whose outcome the executor left open
                notes.append("%s: path that floating-point rounding rules out natively (%s)" % (name, v["msg"][:120]))
                continue
            if not ok and v["kind"] == "limit" and got in ("ok", "assume"):
                # more instructions than the run allows, but it ends: not explored, nothing found
                notes.append("%s: a path takes more than the allowed number of instructions" % name)
                per[-1]["complete"] = d["complete"] = False
                continue
            if not ok:
                problems.append("%s: counterexample not reproduced natively (%s: %s; native: %s %s)" % (name, v["kind"], v["msg"][:300], got, msg))
                continue
            tries = 20 if env else 1
            hit = 0
            for _ in range(tries):
                g2, m2, _l = native(real(r["mod"]), r["entry"], v["tape"], r["params"])
                if g2 in ("assert", "panic", "timeout"):
                    hit += 1
                    if not env or hit >= 1:
                        break
            if hit == 0 and not env and v.get("approx"):
                notes.append("%s: only the shimmed build reproduces (%s)" % (name, v["msg"][:120]))
                continue
            if hit == 0 and not env:
                problems.append("%s: counterexample not reproduced on the unmodified build (%s: %s)" % (name, v["kind"], v["msg"][:300]))
                continue
            text = "%s: %s" % (got, msg)
            k = [k for k in kf if re.search(k["run"], name) and re.search(k["message"], text)]
            if k:
                if k[0]["what"] not in knowns:
                    knowns.append(k[0]["what"])
                continue
            rp = os.path.join(V, "evidence", "replay", "%s-%d.json" % (pid, len(viols)))
            json.dump(dict(property=pid, run=name, entry=r["entry"], params=r["params"], tape=v["tape"], kind=v["kind"], message=v["msg"], native=text, reproduced_on_unmodified_build=hit > 0,
                           how="python3 check.py --replay <this file>", module=r["mod"]), open(rp, "w"), indent=1)
            viols.append((rp, name, text))
    for m in broken:
        problems.append("harness %s does not build on this tree: %s" % (m, broken[m][-300:]))
    tot = lambda k: sum((p.get(k) or 0) for p in per)
    fns = sorted({f for d in res.values() for f in d.get("crate_functions", [])})
    need = {}
    full = {(r["entry"], x) for i, r in todo for x in r.get("reach", [1])}
    for i, r in todo:
        for x in r.get("reach", [1]):
            if not res[i].get("complete"):
                full.discard((r["entry"], x))
            need.setdefault((r["entry"], x), 0)
            need[(r["entry"], x)] += res[i].get("reach", {}).get(str(x), 0)
    vac = [k for k, n in need.items() if n == 0]
    if not any(need.values()):
        problems.append("nothing was explored")
    vac = [k for k in vac if k in full]
    if vac:
        problems.append("never reached: %s" % vac)
    complete = all(p["complete"] for p in per) and not broken
    ev = dict(property=pid, tier=TIER, seed=SEED, level="model_checking", wall_s=round(time.time() - T0, 2), violations=len(viols),
              assumptions=P.COMMON_ASSUMPTIONS + prop.get("assumptions", []),
              coverage=dict(states=tot("paths"), transitions=tot("instructions"), traces_validated_against_impl=validated, samples=samples or [dict(note="no completed path")], exhaustive=complete,
                            meaning="states = symbolic paths explored (each stands for every input satisfying its path condition); transitions = LLVM IR instructions executed symbolically",
                            forks=tot("forks"), obligations=tot("asserts"), obligations_decided_without_solver=tot("asserts_concrete"), branches_decided_by_byte_domains=tot("domain_decisions"), of_which_confirmed_by_the_solver=tot("domain_audited"), comparisons_decided_by_linear_arithmetic=tot("linear_decisions"), comparisons_of_these_confirmed_by_the_solver=tot("linear_audited"), queries=tot("queries"), queries_sat=tot("sat"), queries_unsat=tot("unsat"),
                            queries_unknown=tot("unknown"), solver_s=round(tot("solver_s"), 2), solver=next((d.get("z3") for d in res.values() if d.get("z3")), ""),
                            bounds=[dict(run=p["run"], bound=p["bound"], explored_completely=p["complete"]) for p in per], outside_the_bounds=prop.get("outside", ""),
                            runs=per, functions_encoded=fns[:400], functions_encoded_count=len(fns), inconclusive=problems, notes=notes, known_findings=knowns))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for k in knowns:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for p in problems:
        print("INCONCLUSIVE " + p[:700])
    print("%s %s: %d runs (%s), %d paths, %d instructions, %d queries, solver %.1fs, %d traces validated, %.1fs" % (pid, TIER, len(per), "complete" if complete else "%d not exhausted" % sum(not p["complete"] for p in per), tot("paths"), tot("instructions"), tot("queries"), tot("solver_s"), validated, time.time() - T0))
    if os.environ.get("SX_VERBOSE"):
        for p in per:
            print("   %-90s complete=%s paths=%s ok=%s asm=%s q=%s solver=%.1f wall=%.1f reach=%s" % (p["run"], p["complete"], p["paths"], p["paths_ok"], p["paths_assumed_away"], p["queries"], p["solver_s"] or 0, p["wall_s"] or 0, p["reach"]))
    for rp, name, text in viols:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("   %s %s" % (name, text.replace("\n", " | ")[:400]))
    if viols:
        return 1
    bad = [p for p in per if p["error"]]
    if vac or not any(need.values()):
        return 3
    if any("not reproduced" in p or "disagree" in p for p in problems):
        return 4
    if len(bad) == len(per):
        return 2
    return 0

def replay(path):
    d = json.load(open(path))
    B.engine()
    m = d["module"]
    ch = P.CHILDREN.get(m, [])
    ll, so = B.build(["h_" + m], ch)
    _, rso = B.build(["h_" + m], ch, real=True)
    for what, lib in (("hash order and randomness as the solver chose them", so), ("unmodified build", rso)):
        print("%s: %s" % (what, native(lib, d["entry"], d["tape"], d["params"])[:2]))

if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(main(sys.argv[1]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(5)
