#!/opt/veriftools/pyvenv/bin/python
"""check.py PID [quick|thorough]: decide one property.

 1. proof: every contract of the property is re-verified from the source text
    now in /repo (pyvc), one worker process per contract;
 2. replay / bounded companion: the same postconditions are evaluated on the
    real code (project interpreter) on generated inputs and on every
    counterexample the prover produced.
Exit 0: nothing violated; exit 1 + VIOLATION line otherwise.
"""
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
PY = os.environ.get("VERIF_PROJECT_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("PYVC_REPO", "/repo")


def load_contracts(pid):
    from pyvc import verify
    d = os.path.join(HERE, "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith("_c.py"):
            importlib.import_module("contracts." + f[:-3])
    return verify.CONTRACTS.get(pid, [])


def worker(args):
    pid, k, budget, tmo = args
    sys.setrecursionlimit(30000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    from pyvc import verify
    cs = load_contracts(pid)
    out = {}

    def go():
        try:
            out["r"] = verify.run_contract(cs[k], budget=budget, obl_timeout=tmo)
        except BaseException as e:  # engine limits are "not decided", never an alarm
            out["r"] = {"name": cs[k].name, "target": cs[k].target, "obligations": [], "status": "unsupported",
                        "reason": "engine: %r" % (e,), "assumed": [], "paths": 0, "fails": []}
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out["r"]


def run_rt(pid, seed, mult, budget, env, known):
    f = os.path.join(HERE, "rt", pid + ".py")
    if not os.path.exists(f):
        return None
    try:
        p = subprocess.run([PY, os.path.join(HERE, "rt", "run.py"), pid, "gen", str(seed), str(mult), str(budget)],
                           env=env, capture_output=True, text=True, timeout=budget * 2 + 240)
    except subprocess.TimeoutExpired:
        return {"crash": "timeout", "stderr": "no result after %d s" % (budget * 2 + 240), "ops": {}, "fails": []}
    for line in p.stdout.splitlines():
        if line.startswith("RTRESULT "):
            return json.loads(line[9:])
    return {"crash": p.returncode, "stderr": p.stderr[-3000:], "ops": {}, "fails": []}


def batch(pid, cases, env):
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(cases, f)
    try:
        p = subprocess.run([PY, os.path.join(HERE, "rt", "run.py"), pid, "batch", f.name], env=env, capture_output=True,
                           text=True, timeout=200)
        for line in p.stdout.splitlines():
            if line.startswith("RTRESULT "):
                return json.loads(line[9:])
    except subprocess.TimeoutExpired:
        pass
    finally:
        os.unlink(f.name)
    return ["noop"] * len(cases)


def known_findings(pid):
    p = os.path.join(HERE, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def save_replay(pid, rec):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    s = json.dumps(rec, indent=1, default=str)
    path = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1(s.encode()).hexdigest()[:10]))
    open(path, "w").write(s)
    return path


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    quick = tier == "quick"
    cs = load_contracts(pid)
    meta = {}
    if os.path.exists(os.path.join(HERE, "rt", "meta.json")):
        meta = json.load(open(os.path.join(HERE, "rt", "meta.json"))).get(pid, {})
    # --- environment for the real code
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["OMP_NUM_THREADS"] = "4"
    env["MPLBACKEND"] = "Agg"
    env.pop("PYTHONHOME", None)
    scratch = None
    path = REPO
    if meta.get("build"):
        from rt_build import build
        scratch, err = build(REPO, meta["build"])
        path = scratch
        if err:
            # does not compile: not a property violation the check can decide
            print("note: extension build failed: %s" % err[-500:])
    env["PYTHONPATH"] = path
    env["VERIF_SKBEAM_ROOT"] = path
    results, rt, rtfut = [], None, None
    try:
        mult = 3.0 if quick else 30.0
        rb = 60.0 if quick else 400.0
        with cf.ThreadPoolExecutor(1) as tp:
            rtfut = tp.submit(run_rt, pid, seed, mult, rb, env, [])
            if cs:
                ctx = mp.get_context("fork")
                budget, tmo = (150.0, 8000) if quick else (600.0, 40000)
                with ctx.Pool(min(7, len(cs)), maxtasksperchild=1) as pool:
                    results = pool.map(worker, [(pid, k, budget, tmo) for k in range(len(cs))], chunksize=1)
            rt = rtfut.result()
        violations = []
        findings = known_findings(pid)
        hit = {}

        def is_known(opname, message):
            for k in findings:
                if k.get("op") == opname and all(m in message for m in k.get("match", [])):
                    hit[k["id"]] = k
                    return True
            return False
        # runtime failures
        if rt is not None:
            if "crash" in rt:
                rec = {"property": pid, "kind": "runtime", "op": "(harness process)", "message":
                       "process running the real code died: rc=%s" % rt["crash"], "stderr": rt["stderr"]}
                violations.append((rec, True))
            seen = set()
            for f in rt["fails"]:
                if is_known(f["op"], f["message"]):
                    continue
                if f["op"] in seen:
                    continue
                seen.add(f["op"])
                violations.append(({"property": pid, "kind": "runtime", "op": f["op"], "inputs": f["inputs"],
                                    "message": f["message"],
                                    "replay_cmd": "PYTHONPATH=%s %s %s/rt/run.py %s replay <this file>" % (path, PY, HERE, pid)}, True))
        # failed obligations
        for r in results:
            if r["status"] != "failed":
                continue
            op = r["target"].split(":")[1]
            cname = r["name"].split("/")[1]
            cases = [{"op": o, "inputs": f.get("case")} for f in r["fails"] for o in (cname, op) if f.get("case")]
            got = batch(pid, cases, env) if cases and rt is not None else []
            rep = [(c, m) for c, m in zip(cases, got) if m and m.startswith("FAIL")]
            rep = [(c, m) for c, m in rep if not is_known(c["op"], m)]
            undec = all(f["res"] == "timeout" or (r.get("hard") and f["res"] == "unknown") or r.get("soft") for f in r["fails"])
            names = sorted({f["name"] for f in r["fails"]})
            if [k for k in findings if k.get("obligation") and all(any(k["obligation"] in n for k in findings if k.get("obligation")) for n in names)]:
                for k in findings:
                    if k.get("obligation") and any(k["obligation"] in n for n in names):
                        hit[k["id"]] = k
                continue
            if rep:
                violations.append(({"property": pid, "kind": "obligation", "op": rep[0][0]["op"], "inputs": rep[0][0]["inputs"],
                                    "message": rep[0][1], "obligations": names, "verifier": r["fails"]}, True))
            elif undec:
                r["status"] = "undecided"
                r["reason"] = "not reproduced by an input" if r.get("soft") else "time budget exhausted"
            else:
                violations.append(({"property": pid, "kind": "obligation", "target": r["target"], "obligations": names,
                                    "verifier": r["fails"], "replayed": got}, False))
        for k in hit.values():
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        # an input-carrying violation first
        violations.sort(key=lambda v: not v[1])
        ev = evidence(pid, tier, seed, cs, results, rt, violations, time.time() - t0, meta)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
        for r in results:
            print("%-44s %-11s obligations=%d paths=%d %.1fs %s" % (r["name"], r["status"], len(r["obligations"]), r["paths"],
                                                                  r.get("wall", 0), r.get("reason", "")))
        if rt is not None:
            print("runtime companion: " + ", ".join("%s %d(%d skipped)%s" % (k, v["cases"], v["skipped"], " truncated" if v.get("truncated") else "") for k, v in rt["ops"].items()))
        for rec, inp in violations[:6]:
            f = save_replay(pid, rec)
            print("  %s %s" % (rec.get("message", ""), rec.get("obligations", "")))
            print("VIOLATION property=%s replay=%s%s" % (pid, f, "" if inp else " no-failing-input-found"))
            if inp:
                break
        return 1 if violations else 0
    finally:
        if scratch:
            import shutil
            shutil.rmtree(scratch, ignore_errors=True)


def evidence(pid, tier, seed, cs, results, rt, violations, wall, meta):
    obls = [o for r in results for o in r["obligations"]]
    ok = [o for o in obls if o["res"] in ("proved", "trivial")]
    assumed = sorted({a for r in results for a in r.get("assumed", [])})
    proved = [r for r in results if r["status"] == "proved"]
    bounded = [{"function": r["target"], "reason": r.get("reason", r["status"])} for r in results if r["status"] in ("unsupported", "undecided")]
    from contracts_meta import ASSUMPTIONS, LEVELS
    cov = {
        "obligations": len(obls), "discharged": len(ok),
        "checker_cmd": "python3-vt /verif/check.py %s %s" % (pid, tier),
        "trusted_base": ["pyvc VC generator (/verif/pyvc)", "z3 (python bindings of python3-vt)", "CPython executes the rewritten source",
                         "assumed numpy/scipy contracts listed below"],
        "functions_under_contract": sorted({r["target"] for r in results}),
        "functions_proved": sorted({r["target"] for r in proved}),
        "contracts": [{"name": r["name"], "target": r["target"], "status": r["status"], "obligations": len(r["obligations"]),
                       "paths": r["paths"], "solver_s": r.get("solver_s"), "canary": r.get("canary"), "reason": r.get("reason")}
                      for r in results],
        "solver_seconds": round(sum(r.get("solver_s") or 0 for r in results), 2),
        "back_end": "z3",
        "bounded_not_proved": bounded + [{"function": m, "reason": "bounded runtime stand-in"} for m in meta.get("bounded", [])],
        "runtime_companion": (rt or {}).get("ops", {}),
        "assumed_contracts": assumed,
    }
    return {"property": pid, "tier": tier, "seed": seed, "level": LEVELS.get(pid, "proof"), "coverage": cov,
            "assumptions": ASSUMPTIONS + assumed + meta.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(violations)}


if __name__ == "__main__":
    sys.exit(main())
