"""check runner:  python3-vt -m symgg.run C01 [--tier quick|thorough] [--harness NAME]"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True


def worker(args):
    prop, name, tier, seed = args
    sys.setrecursionlimit(20000)
    from symgg import engine as E
    from symgg import sym as S
    t0 = time.time()
    out = {"harness": name}
    server = E.RealServer()
    try:
        server.start()
        S.set_ctx(S.Ctx())
        hs = E.load(prop)
        try:
            world = E.World()
            for m in hs[name].opts.get("modules", []):
                world.load("gggears." + m)
        except Exception as e:
            import traceback
            out.update(inconclusive=[f"sources not loadable under the encoding: {type(e).__name__}: {e} "
                                     f"{traceback.format_exc()[-400:]}"],
                       violations=[], paths=0, infeasible=0, stats={}, witnesses=0, validated=0,
                       mismatch=[], functions=[], assumed=[], samples=[], wall=time.time() - t0, decl={})
            return out
        r = E.Run(prop, hs[name], world, server, tier, seed)
        r.explore()
        out.update(inconclusive=r.inconclusive, violations=r.violations, paths=r.paths,
                   infeasible=r.infeasible, witnesses=r.witnesses, validated=r.validated,
                   mismatch=r.mismatch, functions=sorted(r.functions), assumed=sorted(r.assumed)[:20],
                   samples=r.samples, decl=r.decl,
                   stats={k: (sorted(v) if isinstance(v, set) else v) for k, v in r.stats.items()})
        if getattr(r, "last_mismatch", None):
            out["last_mismatch"] = str(r.last_mismatch)
    except Exception as e:
        import traceback
        out.update(inconclusive=[f"engine error {type(e).__name__}: {e}: {traceback.format_exc()[-1500:]}"],
                   violations=[], paths=0, infeasible=0, stats={}, witnesses=0, validated=0,
                   mismatch=[], functions=[], assumed=[], samples=[], decl={})
    finally:
        server.close()
    out["wall"] = time.time() - t0
    return out


def known_findings():
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--harness", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from symgg.harness import load
    hs = load(a.prop)
    names = [n for n, h in hs.items() if a.tier == "thorough" or h.tier == "quick"]
    if a.harness:
        names = [n for n in hs if n == a.harness or n.startswith(a.harness)]
    # longest first
    names.sort(key=lambda n: -hs[n].opts.get("weight", 1))
    jobs = [(a.prop, n, a.tier, seed) for n in names]
    ctxm = mp.get_context("spawn")
    results = []
    limit = 780 if a.tier == "quick" else 3400
    if len(jobs) == 1 or a.jobs == 1:
        for j in jobs:
            results.append(worker(j))
    else:
        with ctxm.Pool(min(a.jobs, len(jobs)), maxtasksperchild=1) as pool:
            pend = [(j, pool.apply_async(worker, (j,))) for j in jobs]
            for j, p in pend:
                try:
                    results.append(p.get(max(1, limit - (time.time() - t0))))
                except mp.TimeoutError:
                    results.append(dict(harness=j[1], inconclusive=["harness exceeded the wall limit"],
                                        violations=[], paths=0, infeasible=0, stats={}, witnesses=0,
                                        validated=0, mismatch=[], functions=[], assumed=[], samples=[],
                                        decl={}, wall=limit))
            pool.terminate()
    known = [k for k in known_findings() if k.get("property") == a.prop and k.get("status") == "known"]
    viol, known_hit, inconc = [], [], []
    for r in results:
        for v in r["violations"]:
            k = next((k for k in known if k["harness"] == v["harness"] and k["failed"] == v["failed"]), None)
            (known_hit if k else viol).append((v, k))
        for m in r["inconclusive"]:
            inconc.append((r["harness"], m))
        if r["mismatch"]:
            inconc.append((r["harness"], f"encoding and real code disagree at {r['mismatch'][0]} {r.get('last_mismatch')}"))
        if not r["violations"] and not r["inconclusive"] and r["paths"] == 0:
            inconc.append((r["harness"], "vacuous: no feasible path"))
        if not r["violations"] and not r["inconclusive"] and r["paths"] and not r["witnesses"] \
                and not hs[r["harness"]].opts.get("no_witness"):
            inconc.append((r["harness"], "no reachability witness could be replayed"))
    rdir = os.path.join(ROOT, "replays")
    lines = []
    for v, _ in viol:
        os.makedirs(rdir, exist_ok=True)
        body = {"property": a.prop, **v, "run": f"/opt/venv/bin/python /verif/symgg/concrete.py <this file>"}
        hsh = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:8]
        p = os.path.join(rdir, f"{a.prop}_{v['harness']}_{hsh}.json")
        json.dump(body, open(p, "w"), indent=1)
        lines.append(f"VIOLATION property={a.prop} replay={p}")
        print(f"  {v['harness']}: {v['failed']}: inputs {v['inputs']} -> {v['detail'][:2] or v['exc']}")
    for v, k in known_hit:
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    for hname, m in inconc:
        print(f"INCONCLUSIVE {a.prop} {hname}: {m}")
    if a.v or a.harness:
        for r in results:
            print(f"  {r['harness']}: paths={r['paths']} infeasible={r['infeasible']} wit={r['witnesses']} "
                  f"validated={r['validated']} wall={r['wall']:.1f} "
                  f"{ {k: (round(x, 2) if isinstance(x, float) else x) for k, x in r['stats'].items() if k != 'stubs'} }")
    wall = time.time() - t0
    if not a.harness:
        evidence(a, seed, hs, results, viol, known_hit, inconc, wall)
    tot = lambda k: sum(r["stats"].get(k, 0) for r in results)
    print(f"{a.prop} tier={a.tier}: {len(results)} harnesses, {sum(r['paths'] for r in results)} paths, "
          f"{tot('asserts')} assertions, {tot('queries')} solver queries, {tot('solver_s'):.1f} s solver, "
          f"{sum(r['validated'] for r in results)} witnesses validated, {len(viol)} violations, "
          f"{len(inconc)} inconclusive, {wall:.0f} s")
    for l in lines:
        print(l)
    sys.exit(1 if lines else 0)


def evidence(a, seed, hs, results, viol, known_hit, inconc, wall):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    tot = lambda k: sum(r["stats"].get(k, 0) for r in results)
    funcs = sorted({f for r in results for f in r["functions"]})
    stubs = sorted({s for r in results for s in r["stats"].get("stubs", [])})
    bounds = {r["harness"]: {n: [k, round(lo, 4), round(hi, 4)] for n, (k, lo, hi) in r["decl"].items()}
              for r in results}
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(sum(r["paths"] for r in results)),
            "transitions": int(tot("forks") + tot("asserts")),
            "traces_validated_against_impl": int(sum(r["validated"] for r in results)),
            "samples": [s for r in results for s in r["samples"]][:12],
            "unit": "states = feasible symbolic paths of the real source, transitions = symbolic branch "
                    "decisions plus assertion queries; every input below is a solver variable over its range",
            "functions_encoded": funcs,
            "queries_discharged": int(tot("queries")),
            "queries_unsat": int(tot("q_unsat")), "queries_sat": int(tot("q_sat")),
            "queries_unknown": int(tot("q_unknown")),
            "assertions_proved_within_bounds": int(tot("asserts")),
            "solver_seconds": round(tot("solver_s"), 2),
            "witness_values_compared": int(tot("values_validated")),
            "bounds": bounds,
            "per_harness": [{"harness": r["harness"], "paths": r["paths"], "infeasible": r["infeasible"],
                             "asserts": r["stats"].get("asserts", 0), "wall_s": round(r["wall"], 2),
                             "witnesses": r["witnesses"], "validated": r["validated"],
                             "excluded_degenerate": r["assumed"][:6]} for r in results],
            "inconclusive": [f"{h}: {m}"[:300] for h, m in inconc],
        },
        "assumptions": [
            "IEEE doubles are treated as exact reals; replays on the real code use tolerance 1e-6",
            "inputs outside the listed ranges are outside the claim",
            "points where a divisor vanishes are excluded when the solver cannot rule them out (listed per harness)",
        ] + stubs,
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(d, a.prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
