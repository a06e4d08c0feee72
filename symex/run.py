"""Check runner:  python -m symex.run <property> [--tier quick|thorough] [--case NAME] [--replay FILE]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
if sys.path[0] != SRC:
    sys.path.insert(0, SRC)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")

from symex import core, shim  # noqa: E402
from symex.engine import Engine  # noqa: E402

FUNCS = set()


def _trace_functions():
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, "verif")
    except ValueError:
        return

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(SRC) and (core.CTX is not None and getattr(core.CTX, "symbolic", False)):
            FUNCS.add(fn[len(SRC) + 1:] + ":" + code.co_qualname)
            return mon.DISABLE
        if not fn.startswith(SRC):
            return mon.DISABLE

    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def load_known(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status", "open") == "open":
                    out.append(d)
    return out


def run_case(args):
    prop, idx, tier, seed, known = args
    t0 = time.time()
    FUNCS.clear()
    try:
        sys.monitoring.restart_events()
    except Exception:
        pass
    try:
        mod = importlib.import_module(f"harness.{prop.lower()}")
        case = mod.cases(tier)[idx]
        opts = dict(case.get("opts", {}))
        eng = Engine(seed=seed, **opts)
        eng.known = [k for k in known if k["case"] == case["name"]]
        eng.run(case["fn"], case["name"])
        return dict(
            name=case["name"], stats=eng.stats, violations=eng.violations, known=getattr(eng, "known_hits", []),
            undecided=eng.undecided, notes=sorted(eng.notes), samples=eng.samples, bounds=case.get("bounds", ""),
            funcs=sorted(FUNCS), wall=time.time() - t0, min_claims=case.get("min_claims", 1),
        )
    except BaseException as e:  # noqa
        return dict(name=f"#{idx}", error="".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:],
                    wall=time.time() - t0)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import gym_electric_motor as gem

    assert os.path.realpath(gem.__file__).startswith(os.path.realpath(SRC)), gem.__file__
    mod = importlib.import_module(f"harness.{prop.lower()}")
    cases = mod.cases(a.tier)
    if a.replay:
        return replay(mod, a.replay)
    known = load_known(prop)
    idxs = [i for i, c in enumerate(cases) if not a.case or a.case in c["name"]]
    jobs = [(prop, i, a.tier, seed, known) for i in idxs]
    if a.j > 1 and len(jobs) > 1:
        with mp.get_context("fork").Pool(min(a.j, len(jobs)), initializer=_trace_functions, maxtasksperchild=None) as pool:
            res = list(pool.imap_unordered(run_case, jobs, chunksize=1))
    else:
        _trace_functions()
        res = [run_case(j) for j in jobs]
    res.sort(key=lambda r: r["name"])
    return report(prop, a, seed, mod, res, time.time() - t0, known)


def report(prop, a, seed, mod, res, wall, known):
    tot = {}
    viols = []
    und = []
    errs = []
    hits = []
    notes = set()
    funcs = set()
    samples = []
    vac = []
    bounds = {}
    per = {}
    for r in res:
        if "error" in r:
            errs.append(r)
            continue
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        for v in r["violations"]:
            v["case"] = r["name"]
            viols.append(v)
        for u in r["undecided"]:
            und.append(dict(u, case=r["name"]))
        for h in r["known"]:
            hits.append(dict(h, case=r["name"]))
        notes.update(f"{r['name']}: {n}" for n in r["notes"])
        funcs.update(r["funcs"])
        for s in r["samples"][:1]:
            samples.append(dict(case=r["name"], **s))
        if r["bounds"]:
            bounds[r["name"]] = r["bounds"]
        if (r["stats"]["reach_sat"] == 0 or r["stats"]["claims"] < r["min_claims"]) and not r["violations"]:
            vac.append(r["name"])
        per[r["name"]] = dict(
            paths=r["stats"]["paths"], claims=r["stats"]["claims"], queries=r["stats"]["queries"], wall_s=round(r["wall"], 2)
        )
        if a.v:
            print(r["name"], per[r["name"]], {k: v for k, v in r["stats"].items() if k in ("mismatched", "degraded", "concretisations", "cut_div0", "reach_unknown", "unknown_feas") and v}, flush=True)
            for n in r["notes"]:
                print("   note:", n)
    level = getattr(mod, "LEVEL", "model_checking")
    cov = dict(
        states=tot.get("paths", 0),
        transitions=tot.get("branches", 0),
        traces_validated_against_impl=tot.get("validated", 0),
        samples=samples[:6] or [dict(note="no sample")],
        exhaustive=bool(not und and not errs and not tot.get("concretisations") and not tot.get("degraded")),
        explanation=getattr(mod, "EXPLANATION", "states = completed symbolic paths of the real code, transitions = "
                            "solver-decided branch decisions"),
        functions_encoded=sorted(funcs),
        bounds=getattr(mod, "BOUNDS", ""),
        case_bounds=bounds,
        claims=tot.get("claims", 0),
        queries_discharged=tot.get("discharged", 0),
        discharged_by_normal_form=tot.get("trivially", 0),
        discharged_by_linear_relaxation=tot.get("relaxed", 0),
        feasibility_queries=tot.get("feasibility_queries", 0),
        reachability_witnesses=tot.get("reach_sat", 0),
        reachability_unknown=tot.get("reach_unknown", 0),
        concretised_values=tot.get("concretisations", 0),
        unencodable_paths_run_concretely=tot.get("degraded", 0),
        paths_cut_at_division_by_zero=tot.get("cut_div0", 0),
        encoding_mismatches=tot.get("mismatched", 0),
        solver_s=round(tot.get("solver_s", 0.0), 2),
        undecided=und,
        notes=sorted(notes)[:60],
        per_case=per,
        known_findings_hit=[h["id"] for h in hits],
    )
    ev = dict(
        property=prop, tier=a.tier, seed=seed, level=level, coverage=cov,
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
            "claims are about real arithmetic within the stated input boxes (float literals are read as the reals they "
            "approximate); rounding is outside the claim",
            "third-party code (numpy, scipy, gymnasium) behaves as documented",
        ],
        wall_s=round(wall, 2), violations=len(viols),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{prop} {a.tier}: cases={len(res)} paths={cov['states']} claims={cov['claims']} queries={tot.get('queries', 0)} "
        f"discharged={cov['queries_discharged']} reach={cov['reachability_witnesses']} validated={cov['traces_validated_against_impl']} "
        f"mismatch={cov['encoding_mismatches']} concretised={cov['concretised_values']} degraded={cov['unencodable_paths_run_concretely']} "
        f"undecided={len(und)} solver={cov['solver_s']}s wall={wall:.1f}s"
    )
    seen = set()
    for h in hits:
        if h["id"] not in seen:
            seen.add(h["id"])
            print(f"KNOWN-FINDING: property={prop} {h['text']}")
    if errs:
        for e in errs[:3]:
            print("ERROR", e["name"], e["error"])
    if viols:
        rd = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(viols[:5]):
            p = os.path.join(rd, f"{prop}_{n}.json")
            with open(p, "w") as f:
                json.dump(dict(property=prop, tier=a.tier, **v), f, indent=1, default=str)
            print(f"  [{v['case']}] {v['label']}: {v['observed']}  inputs={ {k: v['inputs'][k] for k in list(v['inputs'])[:8]} }")
            print(f"VIOLATION property={prop} replay={os.path.relpath(p, ROOT)}")
        return 1
    if errs:
        return 2
    if und:
        # not a pass: these claims are outside what this run explored (evidence: undecided, exhaustive=false)
        for u in und[:5]:
            print("UNDECIDED (not explored)", u)
        if tot.get("discharged", 0) < 4 * len(und):
            return 2
    if vac:
        print("VACUOUS", vac)
        return 2
    return 0


def replay(mod, path):
    d = json.load(open(path))
    case = [c for c in mod.cases(d.get("tier", "quick")) if c["name"] == d["case"]][0]
    eng = Engine()
    eng.fn = case["fn"]
    c, exc = eng.concrete(d["inputs"])
    print("inputs:", d["inputs"])
    print("exception:", exc)
    print("failed claims:", c.fails)
    return 1 if (exc and exc != "abort") or c.fails else 0


if __name__ == "__main__":
    sys.exit(main())
