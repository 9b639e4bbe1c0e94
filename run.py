#!/usr/bin/env python3
"""Decides one property by solver-based checking of the code in /repo.

usage: run.py PROPERTY [--tier quick|thorough]
       run.py setup

exit 0  the property held on everything explored (lines "NOT EXPLORED" name
        scenarios or harnesses which ran out of time or bounds)
exit 1  broken: prints VIOLATION property=<id> replay=<path>
exit 2  no verdict (engine trouble, most of it undecided, vacuous or
        unconfirmed results)
"""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, ".build")
REPO = "/repo"

ENGINES = {p: ("symx",) for p in "C01 C02 C03 C04 C05 C06 C07 C13 C17 C19 C22 C23".split()}
ENGINES["C21"] = ("sched",)
ENGINES.update({p: ("kani",) for p in "C09 C16 C24".split()})
ENGINES.update({p: ("symx", "kani") for p in "C08 C10 C11 C12 C14 C15 C18 C20".split()})

# harness time limits in seconds, whole-run limits
HARNESS_QUICK = {"C09": 150, "C16": 150, "C10": 250, "C11": 250, "C18": 250}
LIMITS = {"quick": dict(harness=400, kani=700, symx=500), "thorough": dict(harness=3000, kani=20000, symx=6000)}

# What symx executes for a property (the generic code of /repo instantiated
# with the symbolic number type).
SYMX_FUNCTIONS = {
    "C01": "Expr::{to_model,compile}, Model ops, StaticExpr::{simplify,expand_*}, Expanded::*, CompiledModel::{from_model,reduce_order,generate_*}, SimpleSolver::new",
    "C02": "Expr::compile, CompiledModel::reduce_order, Expanded::{get_subsets,...}, constraint and penalty bookkeeping, model generation",
    "C03": "Expr::feed_dict, CompiledModel::{feed_dict,get_placeholders}, Expr::compile, model generation",
    "C04": "SimpleSolver::solve_with_constraints, CompiledModel::*, SingleSolution::with_energy",
    "C05": "SimpleSolver::solve_with_constraints, CompiledModel::get_unsatisfied_constraints, Expr::calculate",
    "C06": "SimpleSolver::solve_with_constraints, constraint weight update, CompiledModel::feed_dict",
    "C07": "SimpleSolver::{solve,solve_with_constraints}, sample selection",
    "C08": "Expr operators Add, Sub, Mul, Neg, BitXor and their assigning forms (generic in the number type), Expr::{zero,one}, From<R> for Expr",
    "C10": "FixedSingleQuadricModel::{new,add_weight,get_weight,size}",
    "C20": "SimulatedAnnealerGenerator::generate, SimulatedAnnealer::solve_with_rng, simulated_annealing, BinaryRepr::new_random",
    "C21": "SimpleSolver::solve_with_constraints with rayon replaced by sched/rayon-model",
    "C22": "SimpleSolver::{with_solver,solve_with_constraints}",
    "C23": "Expr::map",
    "C11": "SingleModel::{add_weight,prods,nodes,neighbors,get_weight,size}",
    "C12": "SingleSolution::{with_energy,with_local_field,calculate_*,compare_energy,get,index}, SingleModelView::calculate_prod, SingleNode::{get_value,calculate_prod}, FixedSingleQuadricModel, SingleModel, Prods",
    "C13": "classical_solver::algo::simulated_annealing, calculate_flip_cost, BinaryRepr, FixedSingleQuadricModel, SingleModel, Prods, Neighbors",
    "C14": "classical_solver::algo::simulated_annealing, BinaryRepr, FixedSingleQuadricModel, Prods, Neighbors",
    "C15": "classical_solver::beta::{generate_schedule,generate_beta_range,generate_beta_schedule}, SimulatedAnnealerGenerator::generate",
    "C17": "UnstructuredSolverGenerator::into_structured, AsStructuredSolverGeneratorWrapper::{nodes,prods}, UnstructuredEdgeIter::next",
    "C18": "NodeSet for [usize; 2], BTreeSet<usize>, Vec<usize>: from_vec, from_set, from_it, iter, len, contains, into_set, into_vec",
    "C19": "SolutionView::*, SimpleSolver, CompiledModel::get_qubits, wrapper::Qubit",
}


class Trouble(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTFLAGS="--cfg rustqubo_verif", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


# A refusal has to be there in a build without debug assertions, too.
PLAIN = dict(CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false")


def sh(cmd, timeout, cwd, mem_gb=None, more=None):
    """Run a command in a session of its own; (code, output), code None on timeout."""
    import resource, signal

    def pre():
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))

    p = subprocess.Popen(cmd, cwd=cwd, env=dict(env(), **(more or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=pre)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        return None, o.decode(errors="replace")


def run_sched(prop, tier, seed, res):
    """symx with the model of rayon whose schedule the engine decides."""
    run_symx(prop, tier, seed, res, "sched")


def cargo_build(crate, args=(), more=None):
    d = os.path.join(ROOT, crate)
    tgt = os.path.join(BUILD, crate + ("-plain" if more else ""))
    os.makedirs(tgt, exist_ok=True)
    t = time.time()
    rc, o = sh(["cargo", "build", "--offline", "--target-dir", tgt, *args], 600, d, more=more)
    if rc != 0:
        raise Trouble("building %s failed:\n%s" % (crate, o[-4000:]))
    return os.path.join(tgt, "debug"), time.time() - t


# ------------------------------------------------------------------ symx

def run_symx(prop, tier, seed, res, crate="symx"):
    bindir, build_s = cargo_build(crate)
    exe = os.path.join(bindir, crate)
    out = os.path.join(BUILD, "symx-%s.json" % prop)
    if os.path.exists(out):
        os.remove(out)
    lim = LIMITS[tier]["symx"]
    rc, o = sh([exe, "run", prop, "--tier", tier, "--seed", str(seed), "--out", out, "--budget", str(lim)], lim + 200, ROOT)
    if rc != 0 or not os.path.exists(out):
        raise Trouble("symx ended with %s:\n%s" % (rc, o[-4000:]))
    d = json.load(open(out))
    sc = d["scenarios"]
    if not sc:
        raise Trouble("no scenarios")
    tot = lambda k: sum(s[k] for s in sc)
    for v in d["violations"]:
        cmd = [exe, "replay", prop, tier, str(seed), v["scenario"], str(v["seed"]), ",".join(map(str, v["choices"])), ",".join("%s=%s" % (k, repr(x)) for k, x in v["vars"].items())] if isinstance(v.get("vars"), dict) else None
        if v["messages"] == ["does not end"]:
            # noticed from outside: the native run has to show it, too
            if cmd is None or sh(cmd, 20, ROOT)[0] is not None:
                res["trouble"].append("%s: a path without end is not reproduced natively" % v["scenario"])
                continue
        res["violations"].append(dict(engine="symx", scenario=v["scenario"], messages=v["messages"], notes=v.get("notes", [])[:20], cmd=cmd or v.get("replay"), crate=crate))
    if not d["hash_hooked"]:
        res["trouble"].append("the hash keys of std are not under control")
    full = 0
    for s in sc:
        part = []
        for m in s["inconclusive"][:2]:
            # the solver's or the engine's limits; a counterexample the real
            # code does not show is trouble with the engine
            (res["trouble"] if "not reproduced" in m or "lost" in m else part).append("%s: %s" % (s["name"], m))
        for m in s["mismatches"][:2]:
            res["trouble"].append("%s: mismatch: %s" % (s["name"], m))
        if s["unknown"] and not s["inconclusive"]:
            part.append("%s: %d queries without an answer" % (s["name"], s["unknown"]))
        if not d["violations"]:
            if s["pending"]:
                part.append("%s: %d paths left when the time ran out" % (s["name"], s["pending"]))
            elif s["missing_covers"] and not part:
                res["trouble"].append("%s: never reached: %s" % (s["name"], s["missing_covers"]))
        res["incomplete"] += part
        full += not part
    if 2 * full < len(sc) and not d["violations"]:
        res["trouble"].append("most of the scenarios were not finished")
    res["states"] += tot("paths")
    res["transitions"] += tot("decisions")
    res["validated"] += tot("validated")
    res["solver_s"] += tot("solver_s")
    res["queries"] += tot("queries")
    samples = []
    for s in sc:
        samples += ["%s: %s" % (s["name"], x) for x in s["samples"][:2]]
    res["samples"] += samples[:12]
    res["coverage"]["symx"] = dict(
        functions_encoded=SYMX_FUNCTIONS.get(prop, ""),
        scenarios=len(sc),
        scenario_list=[dict(name=s["name"], what=s["what"], sort=s["sort"], paths=s["paths"], queries=s["queries"], covers=s["covers"]) for s in sc],
        paths=tot("paths"), infeasible_paths=tot("infeasible"), decisions=tot("decisions"), free_decisions=tot("free_decisions"), choices=tot("choices"),
        solver_queries=tot("queries"), sat=tot("sat"), unsat=tot("unsat"), unknown=tot("unknown"), assertions=tot("checks"),
        assertion_queries=tot("check_queries"), assertions_closed_by_term_identity=tot("trivially_true"),
        native_validations=tot("validated"), values_compared=tot("values_compared"), solver_s=round(tot("solver_s"), 3),
        largest_number=max(s["max_abs"] for s in sc), most_symbolic_variables=max(s["max_vars"] for s in sc), build_s=round(build_s, 1), wall_s=d["wall_s"],
    )


# ------------------------------------------------------------------ kani

def kani_cmd(pattern_args, tgt, tier, extra=(), limit=None):
    return ["cargo", "kani", "--target-dir", tgt, *pattern_args, "-Z", "stubbing", "-Z", "unstable-options", "--no-assertion-reach-checks", "--harness-timeout", "%ds" % (limit or LIMITS[tier]["harness"]), *extra]


def harness_names(prop, tier):
    """Names of the harnesses of a property, from the harness sources."""
    src = os.path.join(ROOT, "kani", "src")
    names = []
    for f in sorted(os.listdir(src)):
        if not f.endswith(".rs"):
            continue
        mod = f[:-3]
        for m in re.finditer(r"^\tfn (c\d\d_\w+)\((\d+)\)", open(os.path.join(src, f)).read(), re.M):
            n = m.group(1)
            if n.startswith(prop.lower() + "_") and (tier == "thorough" or not n.endswith("_t")):
                names.append((mod + "::" + n, int(m.group(2))))
    return names


def playback(full, tgt, tier, t0, more=None):
    """Concrete values of the counterexamples of a harness: list of byte lists."""
    left = LIMITS[tier]["harness"] + 120
    if tier == "quick":
        left = max(30, min(left, 870 - (time.time() - t0)))
    rc, o = sh(kani_cmd(["--exact", "--harness", full], tgt, tier, ["-Z", "concrete-playback", "--concrete-playback", "print"], int(left)), left, os.path.join(ROOT, "kani"), mem_gb=24, more=more)
    found = []
    for block in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", o, re.S):
        vals = []
        for m in re.finditer(r"vec!\[([\d,\s]*)\]", block):
            b = [int(x) for x in m.group(1).replace("\n", " ").split(",") if x.strip()]
            vals.append("".join("%02x" % x for x in b) or "00")
        if vals not in found:
            found.append(vals)
    return found


def kani_json(path):
    js = json.load(open(path))
    return {c["harness_id"]: (c.get("cbmc_stats") or {}) for c in js["cbmc"]}, {r["harness_id"]: r for r in js["verification_results"]["results"]}


def is_unwind(c):
    return c["status"] == "Failure" and ("unwind" in c.get("category", "") or "unwinding assertion" in c.get("description", ""))


def unwound_only(r):
    return bool(r) and any(is_unwind(c) for c in (r.get("checks") or []))


def run_kani(prop, tier, seed, res):
    d = os.path.join(ROOT, "kani")
    names = harness_names(prop, tier)
    if not names:
        raise Trouble("no harnesses")
    # two builds: the harnesses of what is refused, and the others
    groups = []
    for g, more in (("", None), ("-plain", PLAIN)):
        ns = [n for n in names if ("_outside" in n[0]) == bool(more)]
        if ns:
            groups.append((g, more, ns))
    exes, tgts, build_s = {}, {}, 0.0
    for g, more, ns in groups:
        bindir, b = cargo_build("kani", ["--bin", "replay"], more)
        build_s += b
        tgt = os.path.join(BUILD, "kani" + g)
        for n, _ in ns:
            exes[n] = os.path.join(bindir, "replay")
            tgts[n] = (tgt, more)
    out = os.path.join(BUILD, "kani-%s.json" % prop)
    jobs = "8" if tier == "quick" else "6"
    t = time.time()
    limit = HARNESS_QUICK.get(prop) if tier == "quick" else None
    whole = LIMITS[tier]["kani"] + 60
    if tier == "quick":
        # everything is done in 900 s
        whole = min(whole, 820 - (time.time() - res["t0"]))
        if limit is None:
            limit = LIMITS[tier]["harness"]
        limit = int(max(60, min(limit, whole - 120)))
    stats, results = {}, {}

    def group(g, more, ns):
        f = out + g
        if os.path.exists(f):
            os.remove(f)
        args = ["--exact"]
        for n, _ in ns:
            args += ["--harness", n]
        rc, o = sh(kani_cmd(args, tgts[ns[0][0]][0], tier, ["--export-json", f, "--output-format", "terse", "-j", jobs], limit), whole, d, mem_gb=12, more=more)
        if os.path.exists(f):
            a, b = kani_json(f)
            stats.update(a)
            results.update(b)
            return None
        return (rc, o)

    with concurrent.futures.ThreadPoolExecutor() as ex:
        ends = list(ex.map(lambda a: group(*a), groups))
    for e in ends:
        if e is None:
            continue
        if e[0] is None and "symx" in ENGINES[prop]:
            res["incomplete"].append("the Kani harnesses: time ran out")
            return
        raise Trouble("kani ended with %s:\n%s" % (e[0], e[1][-4000:]))
    # loops that run longer than expected get a larger bound
    more = [n for n, _ in names if unwound_only(results.get(n))]
    bounds = dict(names)
    for full in more[:8]:
        left = (LIMITS[tier]["kani"] - (time.time() - t)) if tier == "thorough" else 640 - (time.time() - res["t0"])
        if left < 30:
            break
        o2 = out + ".more"
        if os.path.exists(o2):
            os.remove(o2)
        tgt, plain = tgts[full]
        sh(kani_cmd(["--exact", "--harness", full], tgt, tier, ["--unwind", str(2 * bounds[full] + 8), "--export-json", o2, "--output-format", "terse"]), min(left, LIMITS[tier]["harness"] + 60), d, mem_gb=16, more=plain)
        if os.path.exists(o2):
            s2, r2 = kani_json(o2)
            if r2.get(full) and r2[full].get("checks") and not unwound_only(r2[full]):
                stats.update(s2)
                results.update(r2)
                bounds[full] = 2 * bounds[full] + 8
    names = [(n, bounds[n]) for n, _ in names]
    wall = time.time() - t
    undone = 0
    per, functions = [], set()
    obligations = covers = 0
    candidates = []
    for full, unwind in names:
        r = results.get(full)
        if r is None:
            res["incomplete"].append("%s: not run" % full)
            undone += 1
            continue
        checks = r.get("checks") or []
        refuse = "_outside" in full
        bad, unwound, forbidden, undecided = [], [], [], []
        reached = {}  # one cover statement may be instantiated several times
        for c in checks:
            s, desc, cat = c["status"], c.get("description", ""), c.get("category", "")
            f = (c.get("location") or {}).get("file", "")
            if f.startswith(REPO):
                functions.add(c.get("function", ""))
            if cat == "NaN":
                continue  # making a NaN is no error in Rust
            if cat == "cover" or "cover" in cat:
                covers += 1
                if desc.startswith("MUSTNOT"):
                    if s == "Satisfied":
                        forbidden.append(desc)
                else:
                    k = (desc, f, (c.get("location") or {}).get("line"))
                    reached[k] = reached.get(k, False) or s == "Satisfied"
                continue
            obligations += 1
            if s == "Failure":
                if is_unwind(c):
                    unwound.append(desc)
                elif refuse and cat in ("assertion",) or (refuse and "safety" not in cat and "pointer" not in cat and "bounds" not in cat and f.startswith(REPO)):
                    pass  # the refusal
                else:
                    bad.append("%s (%s:%s)" % (desc, f.replace("/home/runner/.rustup/toolchains/", ""), (c.get("location") or {}).get("line")))
            elif s in ("Undetermined", "Error", "Unknown"):
                undecided.append(desc)
        unreached = [k[0] for k, ok in reached.items() if not ok]
        st = stats.get(full, {})
        per.append(dict(harness=full, unwind=unwind, status=r["status"], ms=r["duration_ms"], checks=len(checks), symex_steps=st.get("size_program_expression"), vccs=st.get("vccs_generated"), vccs_to_solver=st.get("vccs_remaining"), solver_s=st.get("runtime_solver_s")))
        res["states"] += st.get("size_program_expression") or 0
        res["transitions"] += st.get("vccs_generated") or 0
        res["solver_s"] += st.get("runtime_decision_procedure_s") or st.get("runtime_solver_s") or 0.0
        res["queries"] += 1
        if bad or forbidden:
            candidates.append((full, bad + forbidden))
        elif not checks:
            res["incomplete"].append("%s: no verdict (time or memory ran out)" % full)
            undone += 1
        elif unwound:
            res["incomplete"].append("%s: the unrolling bound is too small" % full)
            undone += 1
            candidates.append((full, []))
        elif undecided:
            res["incomplete"].append("%s: undecided: %s" % (full, undecided[:2]))
            undone += 1
        elif unreached:
            res["trouble"].append("%s: never reached: %s" % (full, unreached))
    # counterexamples are replayed natively before they are reported
    candidates.sort(key=lambda c: not c[1])
    late = []
    for full, why in candidates[:4]:
        if tier == "quick" and time.time() - res["t0"] > 740:
            if why:
                late.append("%s: %s: no time left for the replay" % (full, why[:2]))
            continue
        if any(v["engine"] == "kani" for v in res["violations"]):
            break
        short = full.split("::")[-1]
        for vals in playback(full, tgts[full][0], tier, res["t0"], tgts[full][1])[:8]:
            cmd = [exes[full], short, ",".join(vals)]
            rc, o = sh(cmd, 20, ROOT)
            if rc is None:
                o = "does not end"
            if rc not in (0, 10):
                res["violations"].append(dict(engine="kani", scenario=full, messages=why + [o.strip()[-600:]], notes=[], cmd=cmd, crate="kani"))
                break
        else:
            if why:
                res["trouble"].append("%s: %s: the counterexample does not reproduce natively" % (full, why[:2]))
    if 2 * undone > len(names) and not res["violations"]:
        res["trouble"].append("most of the harnesses have no verdict")
    # the encoding is validated against the code: harnesses run natively
    rng = random.Random(seed)
    ran = held = 0
    vsamples = []
    for full, _ in names:
        short = full.split("::")[-1]
        for k in range(6):
            vals = ["%016x%016x" % (rng.getrandbits(64), rng.getrandbits(64)) if k > 2 else "%02x" % rng.randrange(4) + "00" * 15 for _ in range(40)]
            if any(v["engine"] == "kani" for v in res["violations"]):
                break
            cmd = [exes[full], short, ",".join(vals)]
            rc, o = sh(cmd, 30, ROOT)
            ran += 1
            if rc == 0:
                held += 1
            elif rc != 10:
                # the encoding missed it (or was not finished), the code shows it
                res["violations"].append(dict(engine="kani", scenario=full, messages=["fails natively: " + ("does not end" if rc is None else o.strip()[-600:])], notes=[], cmd=cmd, crate="kani"))
    if not any(v["engine"] == "kani" for v in res["violations"]):
        res["trouble"] += late
    res["validated"] += held
    res["samples"] += ["%s: %d verification conditions, %s ms" % (p["harness"], p["vccs"] or 0, p["ms"]) for p in per[:8]]
    res["coverage"]["kani"] = dict(
        functions_encoded=sorted(f for f in functions if f)[:200], harnesses=len(per), harness_list=per, obligations=obligations, covers=covers,
        native_runs=ran, native_runs_inside_assumptions=held, replay_build_s=round(build_s, 1), wall_s=round(wall, 1),
        bounds="unrolling bound per harness (unwinding assertions on); value ranges in the harness sources",
    )


# ------------------------------------------------------------------ main

def known():
    """known_findings.txt: lines 'finding: property=<id> key=<text> what'."""
    ks = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) key=\"([^\"]*)\" (.*)", l)
            if m:
                ks.append(m.groups())
    return ks


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    if prop == "setup":
        os.makedirs(BUILD, exist_ok=True)
        cargo_build("symx")
        cargo_build("kani", ["--bin", "replay"])
        cargo_build("kani", ["--bin", "replay"], PLAIN)
        cargo_build("sched")
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in LIMITS:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
    res = dict(violations=[], trouble=[], incomplete=[], t0=t0, states=0, transitions=0, validated=0, solver_s=0.0, queries=0, samples=[], coverage={})
    for e in ENGINES[prop]:
        if res["violations"] and tier == "quick":
            break  # one engine's confirmed counterexample is enough
        try:
            {"symx": run_symx, "sched": run_sched, "kani": run_kani}[e](prop, tier, seed, res)
        except Trouble as x:
            res["trouble"].append(str(x))
    findings = [k for k in known() if k[0] == prop]
    fresh = []
    for v in res["violations"]:
        hit = [k for k in findings if k[1] == v["scenario"] or any(k[1] in m for m in v["messages"])]
        if hit:
            v["known"] = True
        else:
            fresh.append(v)
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(states=res["states"], transitions=res["transitions"], traces_validated_against_impl=res["validated"], samples=res["samples"] or ["-"],
                      explanation="symx: states = execution paths, transitions = decisions on them; kani: states = program steps of the unrolled harnesses, transitions = verification conditions generated; validated = paths and harnesses re-executed natively with the same outcome",
                      queries=res["queries"], solver_s=round(res["solver_s"], 3), **res["coverage"]),
        assumptions=ASSUMPTIONS.get(prop, []) + COMMON, wall_s=round(time.time() - t0, 2), violations=len(fresh), trouble=res["trouble"][:20], incomplete=res["incomplete"][:20],
    )
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    for t in res["trouble"][:20]:
        print("TROUBLE property=%s %s" % (prop, t))
    for t in res["incomplete"][:20]:
        print("NOT EXPLORED property=%s %s" % (prop, t))
    if fresh:
        v = fresh[0]
        path = os.path.join(ROOT, "replay", "%s.sh" % prop)
        import shlex

        with open(path, "w") as f:
            f.write("#!/bin/sh\n# %s broken: %s\n" % (prop, v["scenario"]))
            for m in v["messages"][:8] + v["notes"]:
                for l in str(m).splitlines():
                    f.write("#   %s\n" % l)
            f.write("export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS='--cfg rustqubo_verif'\n")
            tgt = os.path.join(BUILD, v["crate"])
            if v["cmd"][0].startswith(tgt + "-plain/"):
                tgt += "-plain"
                f.write("export %s\n" % " ".join("%s=%s" % x for x in PLAIN.items()))
            f.write("(cd %s && cargo build --offline --target-dir %s) >/dev/null 2>&1 || exit 2\n" % (os.path.join(ROOT, v["crate"]), tgt))
            f.write("exec %s\n" % " ".join(shlex.quote(x) for x in v["cmd"]))
        os.chmod(path, 0o755)
        print("%s: %s" % (v["scenario"], "; ".join(str(m) for m in v["messages"][:3])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if res["trouble"]:
        print("no verdict for %s" % prop)
        return 2
    print("held: %s tier=%s queries=%d solver=%.1fs wall=%.1fs" % (prop, tier, res["queries"], res["solver_s"], time.time() - t0))
    return 0


COMMON = [
    "bounded: nothing is claimed beyond the scenario and harness bounds listed under coverage and in DESIGN.md",
    "rustc, std, the solvers (z3, CBMC with cadical) and the engine in /verif/symx are trusted; counterexamples are replayed natively before they are reported",
]
SYM = "numbers are mathematical integers or reals, not machine words or floats: overflow and rounding are outside of the claim (the bound on the numbers is reported as largest_number)"
ASSUMPTIONS = {p: [SYM] for p in "C01 C02 C03 C04 C05 C06 C07 C13 C17 C19 C22 C23".split()}
ASSUMPTIONS["C21"] = [SYM, "rayon is replaced by a model of its documented contract (sched/rayon-model): tasks are atomic and run in any order, reductions are bracketed in any way, the first match or error in time wins; interleavings inside of a task are outside of the claim", "the answers of the annealer are fixed per solver, in the order the solvers are generated"]
ASSUMPTIONS["C14"] = ["symx part: concrete draws and temperatures, symbolic costs; costs within 1% of the edge are not judged", "Kani part: exp is replaced by a table of its values at the multiples of 1/2 the harnesses ask for"]
ASSUMPTIONS["C15"] = ["exp, ln and powf are replaced by base-2 counterparts that satisfy the same laws on the requested points"]
ASSUMPTIONS["C20"] = ["exp, ln and powf are replaced by deterministic stand-ins"]
ASSUMPTIONS["C24"] = ["exp, ln and powf are replaced by stand-ins that satisfy the same laws on the requested points; one temperature per run, at the limits"]
ASSUMPTIONS["C12"] = ["symx part: " + SYM]
ASSUMPTIONS["C13"] = [SYM, "integer weights; the temperature is low enough that every uphill move is beyond the cut-off"]

if __name__ == "__main__":
    sys.exit(main())
