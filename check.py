#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]   exit 0: held on everything explored, exit 1: VIOLATION line.

1. Every contract of the property is run by vc.worker on the instrumented sources of /repo's working tree
   (the functions executed are the ones in /repo; a caller can be checked against a callee's contract).
2. A failed obligation is replayed on the plain, uninstrumented code: the solver's counterexample first, then a search
   with the property's concrete oracle.
3. The concrete oracle also runs as the bounded stand-in for what the contracts leave out or could not decide.
"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
VT = "python3-vt"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
SITE = "/opt/venv/lib/python3.12/site-packages"


def contract_names(prop):
    """[(name, options)] read from the contract file without importing it"""
    f = os.path.join(HERE, "contracts", prop + ".py")
    if not os.path.exists(f):
        return []
    r = subprocess.run([VT, "-c", "import sys,json;sys.path.insert(0,%r);from vc import instr;instr.install();import importlib;from vc import api;importlib.import_module('contracts.%s');"
                        "print('@@'+json.dumps([[c.name,c.budget,c.bounded,c.doc] for c in api.REGISTRY[%r].values()]))" % (HERE, prop, prop)],
                       capture_output=True, text=True, env=dict(ENV, PYTHONPATH=SITE), cwd=HERE, timeout=120)
    for line in r.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    # the tree does not load under the instrumentation: take the names from the text
    names = []
    for n in ast.walk(ast.parse(open(f).read())):
        if isinstance(n, ast.FunctionDef) and any(isinstance(d, ast.Call) and getattr(d.func, "id", "") == "contract" for d in n.decorator_list):
            names.append([n.name, 30, None, ""])
    return names


def run_worker(prop, name, budget, tier, tmp):
    out = os.path.join(tmp, "w_%s.json" % name)
    err = os.path.join(tmp, "w_%s.err" % name)
    limit = budget * (6 if tier == "thorough" else 1) + 45
    try:
        with open(err, "w") as e:
            subprocess.run([VT, "-m", "vc.worker", prop, name, "--tier", tier, "--out", out], cwd=HERE, env=dict(ENV, PYTHONPATH=SITE),
                           stdout=e, stderr=e, timeout=limit)
        return json.load(open(out))
    except subprocess.TimeoutExpired:
        why = "worker: time limit"
    except Exception as x:
        why = "worker: %s" % type(x).__name__
    return {"contract": name, "functions": [], "obligations": [], "undecided": [why], "assumed": {}, "bounded": None, "paths": 0,
            "queries": 0, "solver_s": 0.0, "covers": {}, "doc": "", "trace": open(err).read()[-2000:] if os.path.exists(err) else ""}


def run_oracle(prop, seed, tier, budget, tmp, case=None, tag="o"):
    out = os.path.join(tmp, "%s_%d.json" % (tag, seed))
    cmd = [PY, "-m", "oracle.run", prop, "--seed", str(seed), "--tier", tier, "--out", out, "--budget", str(budget)]
    if case:
        cmd += ["--case", case]
    try:
        r = subprocess.run(cmd, cwd=HERE, env=ENV, capture_output=True, text=True, timeout=budget * 2 + 60)
        res = json.load(open(out))
        res["rc"] = r.returncode
        return res
    except subprocess.TimeoutExpired:
        return {"evaluations": 0, "failures": [], "distinct": 0, "samples": [], "exhausted": False, "rc": "timeout", "stderr": ""}
    except Exception as x:
        err = locals().get("r")
        return {"evaluations": 0, "failures": [], "distinct": 0, "samples": [], "exhausted": False, "rc": getattr(err, "returncode", str(x)),
                "stderr": (getattr(err, "stderr", "") or "")[-3000:]}


def known(prop):
    """known findings of the property: substrings of the error text of the specific failing case"""
    f = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get("status") == "known" and e.get("property") == prop:
                    out.append(e)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-oracle", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    t0 = time.time()
    names = contract_names(prop)
    obudget = 60.0 if tier == "quick" else 400.0
    with tempfile.TemporaryDirectory(prefix="verif_") as tmp, cf.ThreadPoolExecutor(8) as ex:
        ofut = None if a.no_oracle else ex.submit(run_oracle, prop, a.seed, tier, obudget, tmp)
        wfut = [ex.submit(run_worker, prop, n, b, tier, tmp) for n, b, _, _ in sorted(names, key=lambda x: -x[1])]
        workers = [f.result() for f in wfut]
        orc = ofut.result() if ofut else {"evaluations": 0, "failures": [], "distinct": 0, "samples": [], "exhausted": True, "rc": 0}
        failed = [(w, ob) for w in workers for ob in w["obligations"] if ob["nfail"]]
        hard = [(w, ob) for w, ob in failed if not ob.get("soft")]
        replayed = None
        searched = 0
        kn = known(prop)

        def unlisted(fs):
            return [f for f in fs if not any(k["match"] in f["error"] for k in kn)]
        if failed and not unlisted(orc["failures"]):
            # counterexamples of the solver, as cases of the oracle
            cases = []
            try:
                sys.path.insert(0, HERE)
                from vc import replay
                for w, ob in failed:
                    for f in ob["failures"]:
                        cases += replay.cases(prop, w["contract"], f)
            except Exception as e:
                print("note: replay conversion failed: %s" % e)
            if cases:
                cf_ = os.path.join(tmp, "cases.json")
                json.dump(cases[:200], open(cf_, "w"))
                replayed = run_oracle(prop, a.seed, tier, 60, tmp, cf_, "r")
                searched += replayed["evaluations"]
        # an obligation that is not discharged, whether refuted or left open by the verifier: search further for a failing input
        if (failed or any(w["undecided"] for w in workers)) and not a.no_oracle and not unlisted(orc["failures"]):
            if not (replayed and unlisted(replayed["failures"])):
                futs = [ex.submit(run_oracle, prop, a.seed + 100 + i, "thorough", 45, tmp, None, "s") for i in range(6)]
                for f in futs:
                    r = f.result()
                    searched += r["evaluations"]
                    if unlisted(r["failures"]):
                        replayed = r
                        break
    concrete = unlisted(orc["failures"]) or unlisted(replayed["failures"] if replayed else [])
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    crash = orc.get("rc") not in (0, "timeout")
    violation = None
    if concrete or hard:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", prop + ".json")
        body = {"property": prop, "seed": a.seed, "tier": tier,
                "failed_obligations": [{"contract": w["contract"], "obligation": ob["name"], "failing_paths": ob["nfail"], "of_paths": ob["paths"], "verifier_output": ob["failures"]} for w, ob in failed],
                "failing_inputs": concrete[:5],
                "how": "%s -m oracle.run %s --case FILE (cwd %s) with FILE holding the list of the 'case' values" % (PY, prop, HERE)}
        json.dump(body, open(path, "w"), indent=1, default=repr)
        violation = "VIOLATION property=%s replay=%s" % (prop, path)
        if not concrete:
            violation += " no-failing-input-found"
    # ---------------------------------------------------------------- evidence
    obl = [ob for w in workers for ob in w["obligations"]]
    total = sum(ob["paths"] for ob in obl)
    done = sum(ob["discharged"] for ob in obl)
    und = [(w["contract"], u) for w in workers for u in w["undecided"]]
    backends = {}
    for ob in obl:
        for k, v in ob["backend"].items():
            backends[k] = backends.get(k, 0) + v
    assumed = {}
    for w in workers:
        assumed.update(w["assumed"])
    man = {}
    try:
        man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}[prop]
    except Exception:
        pass
    proved = [w for w in workers if not w["undecided"] and not w["bounded"] and not any(ob["nfail"] for ob in w["obligations"])]
    bounded = [w for w in workers if not w["undecided"] and w["bounded"] and not any(ob["nfail"] for ob in w["obligations"])]
    level = "proof" if workers and len(proved) == len(workers) else man.get("level", "other")
    if level == "proof" and not proved:
        level = "other"
    ev = {
        "property": prop, "tier": tier, "seed": a.seed, "level": level,
        "coverage": {
            "obligations": total, "discharged": done,
            "checker_cmd": "python3 %s/check.py %s --tier %s" % (HERE, prop, tier),
            "trusted_base": "vc/ (AST instrumentation, symbolic values, builtin and stdlib models), CPython 3.12 evaluating the instrumented code, z3 %s, cvc5 as second back end" % _z3(),
            "named_obligations": [{"contract": w["contract"], "name": ob["name"], "paths": ob["paths"], "discharged": ob["discharged"], "unknown": ob["unknown"], "failed": ob["nfail"], "backend": ob["backend"]} for w in workers for ob in w["obligations"]],
            "backends": backends,
            "solver_s": round(sum(w["solver_s"] for w in workers), 2),
            "solver_queries": sum(w["queries"] for w in workers),
            "paths": sum(w["paths"] for w in workers),
            "functions_under_contract": sorted({f for w in workers for f in w["functions"]}),
            "contracts_proved": [{"name": w["contract"], "what": w["doc"], "functions": w["functions"]} for w in proved],
            "contracts_bounded": [{"name": w["contract"], "what": w["doc"], "bound": w["bounded"]} for w in bounded],
            "contracts_undecided": [{"name": n, "why": u} for n, u in und],
            "evaluations": orc["evaluations"] + searched,
            "distinct_nontrivial": orc["distinct"],
            "rule": "bounded stand-in (never counted as proved): the property's oracle on the plain code, inputs generated from the seed; %s" % (
                "all generated cases run" if orc.get("exhausted") else "stopped by the time budget"),
            "samples": orc["samples"][:4],
        },
        "assumptions": [("%s: %s" % (k, v)) for k, v in sorted(assumed.items())] + [
            "the instrumentation preserves the meaning of the code (checked by selftest.py on the repository's tests)",
            "Python integers are mathematical integers in the logic, as they are in Python",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if crash:
        ev["coverage"]["standin_crash"] = str(orc.get("rc")) + " " + orc.get("stderr", "")[-500:]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=repr)
    print("%s %s: contracts %d (proved %d, bounded %d, undecided %d), obligations %d/%d, stand-in %d cases, %.1f s" % (
        prop, tier, len(workers), len(proved), len(bounded), len({n for n, _ in und}), done, total, orc["evaluations"], time.time() - t0))
    for n, u in und:
        print("  undecided %s: %s" % (n, u))
    if a.v:
        for w in workers:
            print("  %-34s %6.1fs paths %d queries %d solver %.1f" % (w["contract"], w.get("wall_s", 0), w["paths"], w["queries"], w["solver_s"]))
            for ob in w["obligations"]:
                if ob["nfail"]:
                    print("     FAILED", ob["name"], json.dumps(ob["failures"][:1], indent=1)[:3000])
            if w.get("trace"):
                print(w["trace"])
    for w, ob in failed:
        print("  failed obligation %s/%s%s on %d of %d paths" % (w["contract"], ob["name"], " (soft)" if ob.get("soft") else "", ob["nfail"], ob["paths"]))
    for f in concrete[:3]:
        print("  failing input: %s -> %s" % (json.dumps(f["case"])[:300], f["error"][:300]))
    if crash and not violation:
        # the plain package does not even load or the stand-in died: that is not an answer about the property unless the
        # import of the package itself fails
        print("  stand-in did not run: rc=%s %s" % (orc.get("rc"), orc.get("stderr", "")[-800:]))
        if not proved:
            return 2
    if violation:
        print(violation)
        return 1
    return 0


def _z3():
    try:
        return subprocess.run([VT, "-c", "import z3;print(z3.get_version_string())"], capture_output=True, text=True).stdout.strip()
    except Exception:
        return "?"


if __name__ == "__main__":
    sys.exit(main())
