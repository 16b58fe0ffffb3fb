"""Run the checks of one property:  run.py <ID> [--tier quick|thorough] [--case NAME] [--replay FILE]"""
import os
import sys

os.environ.setdefault("JAX_PLATFORMS", "cpu")
for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_k, "1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [REPO, HERE]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)

import argparse
import importlib
import json
import multiprocessing as mp
import time


def load(pid):
    mod = importlib.import_module(f"props.{pid}")
    return mod


def blank(name, why, tb=None):
    return dict(case=name, paths=0, pruned=0, claims=0, trivial=0, discharged=0, violations=[], inconclusive=[why], tb=tb,
                witness=False, replays=0, tolerant=0, validated=0, unknown_branches=0, stats={}, samples=[], wall=0)


def _work(args):
    pid, name, tier, seed = args
    from symxp import engine
    mod = load(pid)
    case = next(c for c in mod.cases(tier) if c.name == name)
    try:
        return engine.run_case(case, tier, seed)
    except BaseException as e:      # noqa: BLE001
        import traceback
        return blank(name, f"engine failure {type(e).__name__}: {e}", traceback.format_exc())


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                head, _, desc = line[7:].partition(" :: ")
                d = dict(t.split("=", 1) for t in head.split())
                d["desc"] = desc
                out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="check that the solvers and the library can be used")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--deadline", type=float, default=780)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import glass
    import glass.fields, glass.shells, glass.lensing, glass.galaxies, glass.points, glass.shapes, glass.observations  # noqa
    import glass.algorithm, glass.arraytools, glass.user, glass.healpix, glass.harmonics, glass.grf, glass.rng  # noqa
    if not os.path.abspath(glass.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print("error: glass is not imported from", REPO, glass.__file__)
        return 3
    if a.selftest:
        import z3
        import cvc5
        x = z3.Int("x")
        s = z3.Solver()
        s.add(x * x == 49, x > 0)
        ok = s.check() == z3.sat and s.model()[x].as_long() == 7
        print("z3", z3.get_version_string(), "cvc5", cvc5.__version__, "ok" if ok else "broken")
        return 0 if ok else 3
    mod = load(a.pid)
    cases = mod.cases(a.tier)
    if a.replay:
        from symxp import engine
        d = json.load(open(a.replay))
        case = next(c for c in mod.cases(d.get("tier", "quick")) if c.name == d["case"])
        status, h = engine.concrete_run(case, d["env"], d.get("seed", 1))
        print(status, h.fails[:10])
        return 1 if status == "fail" else 0
    if a.case:
        cases = [c for c in cases if c.name == a.case or a.case in c.name]
    jobs = [(a.pid, c.name, a.tier, seed) for c in cases]
    # longest first
    order = sorted(range(len(jobs)), key=lambda i: -cases[i].timeout)
    results = [None] * len(jobs)
    if a.j == 1 or len(jobs) == 1:
        for i in order:
            results[i] = _work(jobs[i])
    else:
        with mp.get_context("fork").Pool(min(a.j, len(jobs))) as pool:
            rs = [(i, pool.apply_async(_work, (jobs[i],))) for i in order]
            for i, r in rs:
                try:
                    results[i] = r.get(max(1.0, t0 + a.deadline - time.time()))
                except mp.TimeoutError:
                    results[i] = blank(jobs[i][1], "not finished within the time limit")
            pool.terminate()
    return finish(a, mod, cases, results, time.time() - t0, seed)


def finish(a, mod, cases, results, wall, seed):
    rc = 0
    kn = known()
    vio, inc, kfs, shown = [], [], [], []
    for r in results:
        if a.v:
            s = r["stats"]
            print(f"  {r['case']:40s} paths={r['paths']:4d} pruned={r['pruned']:3d} claims={r['claims']:5d} nf={r['trivial']:5d} "
                  f"smt={r['discharged']:4d} tol={r['tolerant']} q={s.get('queries', 0)} t_solver={s.get('solver_s', 0):.1f} wall={r.get('wall', 0):.1f} "
                  f"val={r['validated']} wit={r['witness']}")
            for k in ("tb", "tb2", "tb3", "tb4"):
                if r.get(k) and (r["inconclusive"] or r["violations"]) and not shown:
                    shown.append(1)
                    print(r[k])
        for v in r["violations"]:
            hit = [k for k in kn if k["property"] == a.pid and k["case"] == v["case"]
                   and all(any(f.startswith(l) for l in k["label"].replace("_", " ").split("|")) for f in v["fails"][:1])]
            if hit:
                kfs.append((v, hit[0]))
            else:
                vio.append(v)
        for i in r["inconclusive"]:
            inc.append((r["case"], i))
    rep = os.path.join(HERE, "evidence", "replays")
    for n, v in enumerate(vio[:5]):
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, f"{a.pid}-{n}.json")
        with open(path, "w") as f:
            json.dump(dict(property=a.pid, tier=a.tier, **v), f, indent=1, default=str)
        print(f"case {v['case']}: {v['label']} -- {'; '.join(v['fails'][:2])[:300]}")
        print(f"VIOLATION property={a.pid} replay={path}")
        rc = 1
    done = set()
    for v, k in kfs:
        if (k["case"], k["label"]) not in done:
            done.add((k["case"], k["label"]))
            print(f"KNOWN-FINDING: property={a.pid} {k['desc']}")
    if rc == 0 and inc:
        # parts that could not be encoded or decided are reported as not explored; there is no verdict without a majority of the cases
        for c, i in inc[:20]:
            print(f"INCONCLUSIVE {c}: {i}"[:300])
        if 2 * len({c for c, _ in inc}) > len(results):
            rc = 2
    if not a.case:
        evidence(a, mod, cases, results, wall, seed, vio, kfs, inc)
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    st = lambda k: sum(r["stats"].get(k, 0) for r in results)
    if rc == 0:
        print(f"OK property={a.pid} cases={len(results)} paths={tot('paths')} claims={tot('claims')} queries={st('queries')} "
              f"solver={st('solver_s'):.1f}s wall={wall:.1f}s")
    return rc


def evidence(a, mod, cases, results, wall, seed, vio, kfs, inc):
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    st = lambda k: sum(r["stats"].get(k, 0) for r in results)
    samples = [dict(case=r["case"], witness=r["samples"][0]) for r in results if r["samples"]][:5]
    ev = dict(
        property=a.pid, tier=a.tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"),
        coverage=dict(
            states=tot("paths") + tot("pruned"), transitions=st("branches"),
            traces_validated_against_impl=tot("replays"),
            samples=samples or [dict(case=r["case"]) for r in results[:5]],
            functions_encoded=mod.FUNCTIONS, bounds=mod.BOUNDS, cases=len(results),
            paths=tot("paths"), infeasible_paths=tot("pruned"), claims=tot("claims"),
            claims_closed_by_normal_form=tot("trivial"), claims_discharged_by_solver=tot("discharged"),
            claims_discharged_within_1e_6=tot("tolerant"), encoded_values_checked_against_real_run=tot("validated"),
            queries=st("queries"), queries_unsat=st("unsat"), queries_sat=st("sat"), queries_unknown=st("unknown"),
            queries_cached=st("cached"), cvc5_queries=st("cvc5"), solver_s=round(st("solver_s"), 3),
            inconclusive=[f"{c}: {i}" for c, i in inc][:20],
            known_findings=[k["desc"] for _, k in kfs],
            explanation="symbolic execution of the functions listed, imported from the working tree, on symbolic arrays; "
                        "states = execution paths explored, transitions = branch decisions put to the solver"),
        assumptions=mod.ASSUMPTIONS, violations=[dict(case=v["case"], fails=v["fails"]) for v in vio], wall_s=round(wall, 2))
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{a.pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
