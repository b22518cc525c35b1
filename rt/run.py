"""run with the project's interpreter: rt/run.py PID (gen SEED MULT BUDGET | replay FILE)"""
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rt import common  # noqa


def main():
    pid, mode = sys.argv[1:3]
    importlib.import_module("rt." + pid)
    if mode == "replay":
        case = json.load(open(sys.argv[3]))
        if case["op"] not in common.OPS:
            print(json.dumps({"res": "noop"}))
            return 0
        r = common.run_check(case["op"], case["inputs"])
        print(json.dumps({"res": r}))
        return 1 if r and r.startswith("FAIL") else 0
    if mode == "batch":   # file with list of cases
        out = []
        for case in json.load(open(sys.argv[3])):
            if case["op"] not in common.OPS or case["inputs"] is None:
                out.append("noop")
                continue
            out.append(common.run_check(case["op"], case["inputs"]))
        print("RTRESULT " + json.dumps(out))
        return 0
    seed, mult, budget = int(sys.argv[3]), float(sys.argv[4]), float(sys.argv[5])
    known = json.loads(sys.argv[6]) if len(sys.argv) > 6 else []
    t0 = time.time()
    res = {"ops": {}, "fails": [], "known": []}
    ops = list(common.OPS.items())
    per = {}
    for name, (gen, f, n) in ops:
        st = {"cases": 0, "skipped": 0, "planned": int(n * mult)}
        res["ops"][name] = st
        rng = common.Rng("%s/%d" % (name, seed))
        tlim = t0 + budget
        nf = 0
        fixed = list(gen(None)) if getattr(gen, "with_fixed", False) else []
        for i in range(len(fixed) + int(n * mult)):
            if time.time() > tlim:
                st["truncated"] = True
                break
            inputs = fixed[i] if i < len(fixed) else gen(rng)
            r = common.run_check(name, inputs)
            st["cases"] += 1
            if r == "skip":
                st["skipped"] += 1
            elif r:
                nf += 1
                res["fails"].append({"op": name, "inputs": inputs, "message": r})
                if nf >= 3:
                    break
    res["wall"] = time.time() - t0
    print("RTRESULT " + json.dumps(res))
    return 0


sys.exit(main())
