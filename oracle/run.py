"""Driver: python -m oracle.run PROP --seed N --tier quick|thorough --out FILE [--case FILE] [--budget S]"""
import argparse
import faulthandler
import importlib
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

MODULES = {}
for _m, _ids in (("wire", "C01 C02 C03 C04"), ("scalars", "C05 C06 C07 C08 C09 C23"), ("graphs", "C10 C11 C21 C22 C24"),
                 ("session", "C12 C13 C14 C15 C16 C17 C18 C19 C20")):
    for _i in _ids.split():
        MODULES[_i] = _m

COUNTS = {"quick": 1500, "thorough": 30000}
FACTOR = {"C13": 0.02, "C15": 0.15, "C12": 0.3, "C14": 0.2, "C16": 0.2, "C17": 0.2, "C18": 0.5, "C19": 0.4, "C20": 0.4, "C10": 1, "C11": 1,
          "C05": 6, "C08": 10, "C09": 6, "C06": 10, "C23": 6, "C07": 4, "C01": 1, "C02": 1, "C22": 1.5, "C24": 1.5, "C03": 1.3, "C04": 1}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--case")
    ap.add_argument("--budget", type=float, default=60.0)
    a = ap.parse_args()
    faulthandler.enable()
    from oracle.common import Bad
    mod = importlib.import_module("oracle." + MODULES[a.prop])
    o = getattr(mod, a.prop)
    res = {"evaluations": 0, "failures": [], "distinct": 0, "samples": [], "exhausted": True}
    seen = set()
    t0 = time.time()

    def one(case):
        try:
            o.check(case)
            return None
        except Bad as e:
            return {"case": case, "error": str(e)[:2000]}
        except RecursionError:
            return {"case": case, "error": "RecursionError"}
        except Exception as e:
            return {"case": case, "error": "%s: %s" % (type(e).__name__, str(e)[:500]), "trace": traceback.format_exc()[-3000:]}

    if a.case:
        for case in json.load(open(a.case)):
            res["evaluations"] += 1
            f = one(case)
            if f:
                res["failures"].append(f)
    else:
        rng = random.Random("%s-%s" % (a.prop, a.seed))
        n = int(COUNTS[a.tier] * FACTOR.get(a.prop, 1))
        for case in o.cases(rng, n):
            res["evaluations"] += 1
            js = json.dumps(case, sort_keys=True)
            seen.add(hash(js))
            if len(res["samples"]) < 4 or (res["evaluations"] % 997 == 0 and len(res["samples"]) < 10):
                res["samples"].append(case)
            f = one(json.loads(js))
            if f:
                res["failures"].append(f)
                if len(res["failures"]) >= 3:
                    break
            if time.time() - t0 > a.budget:
                res["exhausted"] = False
                break
        res["distinct"] = len(seen)
    res["wall_s"] = round(time.time() - t0, 2)
    js = json.dumps(res, indent=1)
    if a.out:
        open(a.out, "w").write(js)
    else:
        print(js[:6000])
    return 0


if __name__ == "__main__":
    sys.exit(main())
