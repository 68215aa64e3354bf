"""Development: runs the contracts of a property only.  dv.py PROP [NAME-substring]"""
import concurrent.futures as cf, json, sys, tempfile
import check
prop = sys.argv[1]
sub = sys.argv[2] if len(sys.argv) > 2 else ""
tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
names = [n for n in check.contract_names(prop) if sub in n[0]]
shown = 0
with tempfile.TemporaryDirectory() as tmp, cf.ThreadPoolExecutor(8) as ex:
    for w in ex.map(lambda n: check.run_worker(prop, n[0], n[1], tier, tmp), names):
        ok = not w["undecided"] and not any(o["nfail"] for o in w["obligations"])
        print("%-4s %-40s %6.1fs paths %5d queries %6d solver %6.1f obl %d/%d" % ("ok" if ok else "BAD", w["contract"], w.get("wall_s", 0), w["paths"], w["queries"], w["solver_s"],
              sum(o["discharged"] for o in w["obligations"]), sum(o["paths"] for o in w["obligations"])))
        for u in w["undecided"][:3]:
            print("      undecided:", u[:300])
        for o in w["obligations"]:
            if o["nfail"]:
                print("      FAILED %s on %d/%d" % (o["name"], o["nfail"], o["paths"]))
                if shown < 2:
                    shown += 1
                    for f in o["failures"][:1]:
                        print("        inputs", json.dumps(f["inputs"])[:600])
                        print("        clause", f["clause"][:800])
                        print("        detail", (f["detail"] or "")[-1500:])
        if w.get("trace") and shown < 2:
            shown += 1
            print(w["trace"][-2500:])
