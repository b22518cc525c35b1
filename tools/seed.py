"""seed.py ID PROPERTY FILE: FILE holds a python dict
 {"file":..., "old":..., "new":..., "needs":..., "breaks":..., "demo": python source}  (or "edits": [(file, old, new)])
Makes /verif/seeded/ID after confirming, in a scratch copy of /repo: builds, stable tests pass, demo 0 without / nonzero with the change."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ID, PROP, SRC = sys.argv[1:4]
spec = eval(open(SRC).read())
edits = spec.get("edits") or [(spec["file"], spec["old"], spec["new"])]
d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
w = d + "/repo"
PYB = "/opt/venv/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


try:
    shutil.copytree("/repo", w, symlinks=True)
    out = "/verif/seeded/" + ID
    env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    demo = d + "/demo.py"
    open(demo, "w").write(spec["demo"])
    r = sh("%s %s" % (PYB, demo), cwd=w, env=env)
    if r.returncode:
        sys.exit("demo fails on the unchanged tree: " + r.stdout + r.stderr)
    ext = False
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: %d matches for %r" % (f, s.count(old), old))
        open(p, "w").write(s.replace(old, new))
        ext |= f.endswith((".c", ".pyx", ".h"))
    if ext:
        r = sh("%s setup.py build_ext --inplace" % PYB, cwd=w, env=env)
        if r.returncode:
            sys.exit("build fails " + r.stderr[-2000:])
    r = sh("%s %s" % (PYB, demo), cwd=w, env=env)
    if r.returncode == 0:
        sys.exit("demo passes with the change")
    msg = (r.stdout + r.stderr).strip().splitlines()[-1:]
    r = sh("cd %s && PYTHONPATH=%s:/opt/vp/plugin PYTHONHASHSEED=0 OMP_NUM_THREADS=4 timeout 800 %s -m pytest -q -p no:cacheprovider -p vp_seed --timeout=120 --continue-on-collection-errors "
           "-o junit_family=xunit2 --junitxml=%s/j.xml; /usr/bin/python3 /opt/vp/results.py %s/o.json junit:%s/j.xml" % (w, w, PYB, d, d, d), env=env)
    if not os.path.exists(d + "/o.json"):
        sys.exit("no test report " + r.stdout[-1500:] + r.stderr[-1500:])
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(json.load(open(d + "/o.json"))["passed"])
    miss = sorted(base - passed)
    if miss:
        sys.exit("tests broken: %s" % miss[:5])
    diff = sh("git diff -- %s" % " ".join(e[0] for e in edits), cwd=w).stdout
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.py", "w").write(spec["demo"])
    open(out + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": PROP, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    print("kept", ID, msg)
finally:
    shutil.rmtree(d, ignore_errors=True)
