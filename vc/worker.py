"""Runs one contract: python3-vt -m vc.worker PROP NAME --tier quick --out FILE"""
import argparse
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(6000)


def run(prop, name, tier):
    t0 = time.time()
    res = {"contract": name, "functions": [], "obligations": [], "undecided": [], "assumed": {}, "bounded": None, "paths": 0,
           "queries": 0, "solver_s": 0.0, "covers": {}, "doc": "", "soft": []}
    try:
        from . import core, instr
        instr.install()
        import importlib
        from . import api
        importlib.import_module("contracts." + prop)
        c = api.REGISTRY[prop][name]
    except BaseException as e:  # the tree cannot be brought into the verifier: undecided, never a violation
        res["undecided"].append("cannot load: %s: %s" % (type(e).__name__, str(e)[:300]))
        res["trace"] = traceback.format_exc()[-3000:]
        return res
    res["doc"], res["bounded"] = c.doc, c.bounded
    eng = core.Engine(name, timeout_ms=c.timeout_ms, budget_s=c.budget if tier == "quick" else c.budget * 6,
                      max_paths=c.max_paths, max_depth=c.max_depth)
    eng.tier = tier
    eng.assumed = {}
    try:
        eng.explore(c.fn)
    except BaseException as e:
        res["undecided"].append("engine: %s: %s" % (type(e).__name__, str(e)[:300]))
        res["trace"] = traceback.format_exc()[-4000:]
    for ob in eng.obligations.values():
        res["obligations"].append({"name": ob.name, "paths": ob.paths, "discharged": ob.discharged, "unknown": ob.unknown,
                                   "failures": [f for f in ob.failures if f], "nfail": len(ob.failures), "backend": ob.backend,
                                   "soft": ob.soft})
        if ob.unknown:
            res["undecided"].append("obligation %s: no answer from the solvers on %d paths" % (ob.name, ob.unknown))
    for n in c.covers:
        if not eng.covers.get(n) and not res["undecided"]:
            res["undecided"].append("vacuous: no path reaches %s" % n)
    if not eng.obligations and not res["undecided"]:
        res["undecided"].append("no obligation was generated")
    res["undecided"] += eng.undecided
    res["functions"] = sorted(eng.stats.functions)
    res["paths"], res["queries"] = eng.stats.paths, eng.stats.queries
    res["solver_s"] = round(eng.stats.solver_s, 3)
    res["covers"] = eng.covers
    res["assumed"] = eng.assumed
    res["log"] = eng.log[:20]
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("name")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    a = ap.parse_args()
    r = run(a.prop, a.name, a.tier)
    js = json.dumps(r, indent=1, default=repr)
    if a.out:
        open(a.out, "w").write(js)
    else:
        print(js)


if __name__ == "__main__":
    main()
