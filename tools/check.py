#!/usr/bin/env python3
"""Decides one property by symbolic execution of brec's compiled IR (see DESIGN.md).

check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [--keep]
exit 0: nothing violated on everything explored (INCOMPLETE lines name what was not); 1: a violation that the native build
reproduces; 2: no answer (does not build, out of bounds, engine and native build disagree).
"""
import fcntl, json, os, re, subprocess, sys, time, hashlib, signal
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, ".work")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS  # noqa

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
ENV["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + ENV.get("PATH", "")
SYMEX = os.path.join(VERIF, "engine/target/release/symex")
# two builds: slots of three packets (the hook), and brec as shipped
CFG = {"small": "--cfg brec_verif", "full": ""}
SYM = {"small": "sym", "full": "symfull"}
NAT = {"small": "nat", "full": "natfull"}


def replay_bin(kind):
    return os.path.join(WORK, NAT[kind], "debug/replay")


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def run(cmd, cwd, env=ENV, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return r.returncode, r.stdout


def errs(out):
    """The first few error messages of a compiler run."""
    i = out.find("error")
    return out[max(i, 0):][:2500]


def build_engine():
    rc, out = run(["cargo", "build", "--release", "--offline", "--locked"], os.path.join(VERIF, "engine"))
    if rc:
        die("engine does not build\n" + out[-3000:])


def build_ir(kind):
    env = dict(ENV, RUSTFLAGS=f"--cfg symex {CFG[kind]} -C no-vectorize-loops -C no-vectorize-slp")
    tdir = os.path.join(WORK, SYM[kind])
    deps = os.path.join(tdir, "x86_64-unknown-linux-gnu/sym/deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith("harness") and f.endswith(".ll"):
                os.unlink(os.path.join(deps, f))
    # touching the crate root makes cargo run rustc, hence write the IR, every time
    os.utime(os.path.join(VERIF, "harness/src/lib.rs"))
    rc, out = run(["cargo", "rustc", "--offline", "--locked", "--lib", "--target", "x86_64-unknown-linux-gnu",
                   "--profile", "sym", "--target-dir", tdir, "--", "--emit=llvm-ir"],
                  os.path.join(VERIF, "harness"), env)
    if rc:
        die("the harness does not compile against /repo\n" + errs(out))
    lls = [f for f in os.listdir(deps) if f.startswith("harness") and f.endswith(".ll")]
    if len(lls) != 1:
        die(f"expected one IR module, found {lls}")
    return os.path.join(deps, lls[0])


def build_native(kind):
    env = dict(ENV, RUSTFLAGS=CFG[kind])
    rc, out = run(["cargo", "build", "--offline", "--locked", "--target-dir", os.path.join(WORK, NAT[kind])],
                  os.path.join(VERIF, "replay"), env)
    if rc:
        die("the replay binary does not compile against /repo\n" + errs(out))


def build(kinds=("small",)):
    """-> {kind: IR file}"""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(5) as ex:
            en = ex.submit(build_engine)
            ir = {k: ex.submit(build_ir, k) for k in kinds}
            nat = [ex.submit(build_native, k) for k in kinds]
            try:
                [f.result() for f in nat + [en]]
                return {k: f.result() for k, f in ir.items()}
            except SystemExit:
                os._exit(2)


def replay(entry, inp, kind="small", timeout=20):
    """-> (verdict, text): verdict in ok|violated|assume|error"""
    try:
        r = subprocess.run([replay_bin(kind), entry, inp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, cwd=WORK)
    except subprocess.TimeoutExpired:
        return "violated", f"no end within {timeout} s"
    out = r.stdout.decode(errors="replace")
    if r.returncode == 0:
        return "ok", out
    if r.returncode == 77:
        return "assume", out
    if r.returncode == 101:
        return "violated", out
    if r.returncode < 0:
        return "violated", out + f"killed by signal {-r.returncode}"
    return "error", out


PROCS = []
DEADLINE = 0


def symex(ll, entry, picks, opts, outdir, seed):
    name = entry + "".join(f".{k}-{v}" for k, v in picks)
    out = os.path.join(outdir, name + ".json")
    left = DEADLINE - time.time()
    if left < 5:
        return {"entry": entry, "name": name, "status": "not started", "problems": [
            {"what": "time limit", "count": 1, "input": ""}], "violations": [], "samples": [], "covers": {}, "lines": {}, "fns": []}
    limit = min(opts.get("max_time", 1e9), left)
    cmd = [SYMEX, ll, "--entry", entry, "--out", out, "--seed", str(seed),
           "--max-time", str(int(limit)), "--max-steps", str(opts.get("max_steps", 20_000_000)),
           "--samples", str(opts.get("samples", 12))]
    for k, v in picks:
        cmd += ["--pick", f"{k}={v}"]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    PROCS.append(p)
    try:
        o, _ = p.communicate(timeout=limit + 45)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"entry": entry, "name": name, "status": "killed", "problems": [
            {"what": "time limit", "count": 1, "input": ""}], "violations": [], "samples": [], "covers": {}, "lines": {}, "fns": []}
    if p.returncode != 0 or not os.path.exists(out):
        return {"entry": entry, "name": name, "status": "failed", "problems": [
            {"what": f"engine exit {p.returncode}: " + o.decode(errors='replace')[-800:], "count": 1, "input": ""}],
            "violations": [], "samples": [], "covers": {}, "lines": {}, "fns": []}
    d = json.load(open(out))
    d["name"] = name
    return d


def demangle(names):
    if not names:
        return []
    r = subprocess.run(["c++filt", "-s", "rust"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return sorted(set(re.sub(r"\[[0-9a-f]{16}\]", "", x) for x in r.stdout.split("\n") if x))


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == prop]


def main():
    global DEADLINE
    t0 = time.time()
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--only" in args:
        only = args[args.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    # a whole run is given 900 s; the rest is for building, replaying and reporting
    DEADLINE = t0 + (650 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "7000")))
    if prop not in PROPS:
        die(f"unknown property {prop}")
    spec = PROPS[prop]
    kind_of = {h["entry"]: h.get("build", "small") for h in spec["harnesses"]}
    kinds = sorted({h.get("build", "small") for h in spec["harnesses"]
                    if (not only or h["entry"] == only) and (tier == "thorough" or h.get("tier", "quick") == "quick")})
    deps = lambda k: os.path.join(WORK, SYM[k], "x86_64-unknown-linux-gnu/sym/deps")
    lls = build(kinds) if "--nobuild" not in args else {
        k: [os.path.join(deps(k), f) for f in os.listdir(deps(k)) if f.endswith(".ll") and f.startswith("harness")][0] for k in kinds}
    t_build = time.time() - t0
    outdir = os.path.join(WORK, "out", prop)
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        os.unlink(os.path.join(outdir, f))

    jobs = []
    for h in spec["harnesses"]:
        if only and h["entry"] != only:
            continue
        if h.get("tier", "quick") == "thorough" and tier != "thorough":
            continue
        shards = h.get("shards")  # {pick index: count}
        combos = [[]]
        for k, n in sorted((shards or {}).items()):
            combos = [c + [(k, v)] for c in combos for v in range(n)]
        for c in combos:
            jobs.append((h, c))
    # long ones first
    jobs.sort(key=lambda j: -j[0].get("weight", 1))

    known = known_findings(prop)
    results, confirmed, unconfirmed, seen_known, problems = [], [], [], {}, []
    validated = mismatched = 0
    stop = False

    def judge(d):
        """Replays what the engine reports for one harness run; returns nothing, fills the lists."""
        nonlocal validated, mismatched
        e = d["entry"]
        cand = [dict(v, what=f"{v['kind']} {v['id']}") for v in d["violations"]]
        for p in d["problems"]:
            if p["what"].startswith("step limit") or "steps" in p["what"]:
                cand.append(dict(kind="steps", id="no end within the step bound", input=p["input"], loc="", what=p["what"]))
            else:
                problems.append((d["name"], p["what"]))
        for v in cand:
            verdict, text = replay(e, v["input"], kind_of[e])
            first = next((l for l in text.split("\n") if l.startswith("violated")), text.strip().split("\n")[0])
            if verdict == "violated":
                k = next((f for f in known if f["entry"] == e and re.search(f["match"], first)
                          and (not f.get("input") or re.fullmatch(f["input"], v["input"]))), None)
                if k:
                    seen_known[k["what"]] = seen_known.get(k["what"], 0) + 1
                else:
                    confirmed.append(dict(entry=e, kind=v["kind"], id=v["id"], input=v["input"], native=first,
                                          loc=v.get("loc", ""), stack=v.get("stack", [])))
            elif v["kind"] == "steps":
                problems.append((d["name"], v["what"]))
            else:
                unconfirmed.append((d["name"], v["what"], v["input"], verdict, first))
        for s in d["samples"]:
            verdict, text = replay(e, s["input"], kind_of[e])
            logs = next((l[4:].split() for l in text.split("\n") if l.startswith("log")), [])
            if verdict == "ok" and [int(x) for x in logs] == s["logs"]:
                validated += 1
            else:
                mismatched += 1
                unconfirmed.append((d["name"], "sample", s["input"], verdict, text[:300]))

    workers = max(2, os.cpu_count() or 8)
    with ThreadPoolExecutor(workers) as ex:
        futs = {ex.submit(symex, lls[kind_of[h["entry"]]], h["entry"], c, dict(h, **h.get(tier, {})), outdir, seed): (h, c) for h, c in jobs}
        for f in as_completed(futs):
            if stop:
                continue
            try:
                d = f.result()
            except Exception as err:
                problems.append((str(futs[f][0]["entry"]), repr(err)))
                continue
            results.append(d)
            judge(d)
            if confirmed:
                stop = True
                for g in futs:
                    g.cancel()
                for p in PROCS:
                    if p.poll() is None:
                        p.kill()

    covers = {}
    for d in results:
        for k, n in d["covers"].items():
            covers.setdefault(d["entry"], {}).setdefault(int(k), 0)
            covers[d["entry"]][int(k)] += n
    vacuous = []
    if not stop:
        for h, _ in jobs:
            for c in h.get("covers", [1]):
                if not covers.get(h["entry"], {}).get(c):
                    vacuous.append((h["entry"], c))
        vacuous = sorted(set(vacuous))
    agg = lambda k: sum(d.get(k, 0) for d in results)
    lines, fns = {}, set()
    for d in results:
        for f, ls in d.get("lines", {}).items():
            if f.startswith("/repo/"):
                lines.setdefault(f, set()).update(ls)
        fns.update(d.get("fns", []))
    names = demangle(sorted(fns))
    brec_fns = [n for n in names if "brec" in n]
    incomplete = sorted({d["name"] for d in results if d["status"] not in ("complete",)} | {n for n, _ in problems})
    smp = []
    for d in results[:40]:
        for s in d["samples"][:1]:
            smp.append({"harness": d["name"], "input": s["input"], "logs": s["logs"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": agg("paths"), "transitions": agg("instrs"),
            "traces_validated_against_impl": validated,
            "samples": smp[:12],
            "harness_runs": len(results), "harnesses": sorted({d["entry"] for d in results}),
            "infeasible_paths": agg("infeasible"), "forks": agg("forks"),
            "assertions_evaluated": agg("asserts"), "assertions_sent_to_solver": agg("assert_queries"),
            "queries": agg("queries"), "queries_sat": agg("sat"), "queries_unsat": agg("unsat"),
            "queries_unknown": agg("unknown"), "solver_s": round(agg("solver_s"), 3),
            "engine_s": round(agg("wall_s"), 3), "build_s": round(t_build, 1),
            "solver": next((d["solver"] for d in results if d.get("solver")), "?"),
            "functions_encoded": len(names), "brec_functions_encoded": brec_fns[:400],
            "source_lines_encoded": {f: len(l) for f, l in sorted(lines.items())},
            "bounds": spec["bounds"], "outside_bounds": spec["outside"],
            "cover_goals": {e: c for e, c in sorted(covers.items())},
            "incomplete_runs": incomplete,
            "ir_sha256": {k: hashlib.sha256(open(f, "rb").read()).hexdigest() for k, f in lls.items()},
            "exhaustive": not incomplete and not stop,
        },
        "assumptions": spec.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    if problems:
        ev["coverage"]["not_explored"] = [f"{n}: {w[:200]}" for n, w in problems[:20]]
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(results)} runs, {agg('paths')} paths, {agg('instrs')} instructions, "
          f"{agg('queries')} queries ({agg('solver_s'):.1f} s solver), {validated} paths replayed natively, "
          f"build {t_build:.0f} s, total {time.time()-t0:.0f} s")
    for d in sorted(results, key=lambda d: -d.get("wall_s", 0))[:4]:
        print(f"   {d['name']}: {d.get('paths')} paths {d.get('wall_s')} s {d['status']}")
    for w, n in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {w}")
    if confirmed:
        rdir = os.path.join(WORK, "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for c in confirmed:
            key = (c["entry"], c["kind"], c["id"])
            if key in shown:
                continue
            shown.add(key)
            path = os.path.join(rdir, f"{prop}-{c['entry']}-{len(shown)}.json")
            with open(path, "w") as f:
                json.dump(dict(c, property=prop, command=f"{replay_bin(kind_of[c['entry']])} {c['entry']} {c['input']}"), f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"   {c['entry']}: {c['native'][:300]}")
        sys.exit(1)
    bad = False
    for u in unconfirmed:
        print(f"ERROR: engine and native build disagree: {u}")
        bad = True
    for n, w in problems[:20]:
        if w.startswith("engine exit"):
            print(f"ERROR: {n}: {w[:600]}")
            bad = True
        else:
            # part of the space has not been explored: what has been explored holds
            print(f"INCOMPLETE: {n}: {w[:600]}")
    for e, c in vacuous:
        print(f"ERROR: {e}: cover goal {c} never reached")
        bad = True
    if not results:
        print("ERROR: nothing ran")
        bad = True
    sys.exit(2 if bad else 0)


COMMON = [
    "rustc's lowering to LLVM IR at opt-level 1 with overflow checks, and the engine's semantics of that IR; "
    "every reported violation and a sample of the explored paths are re-run in the native build",
    "crc32fast computes CRC-32/IEEE: the symbolic build uses /verif/crcmodel, which the engine evaluates exactly; "
    "the native replays use the real crate",
    "memory allocation succeeds below 64 GiB",
]

if __name__ == "__main__":
    main()
