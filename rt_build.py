"""build the C and Cython extensions of /repo's working tree in a scratch copy"""
import os
import shutil
import subprocess
import sysconfig
import tempfile

PY = os.environ.get("VERIF_PROJECT_PYTHON", "/opt/venv/bin/python")


def build(repo, what=("ctrans", "hist")):
    d = tempfile.mkdtemp(prefix="verif-build-")
    shutil.copytree(os.path.join(repo, "skbeam"), os.path.join(d, "skbeam"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__", "histogram.c"))
    shutil.copytree(os.path.join(repo, "src"), os.path.join(d, "src"))
    q = subprocess.run([PY, "-c", "import numpy,sysconfig;print(numpy.get_include());print(sysconfig.get_path('include'));"
                                  "print(sysconfig.get_config_var('EXT_SUFFIX'))"], capture_output=True, text=True)
    npi, pyi, suf = q.stdout.split()
    err = ""
    cmds = [
        ["gcc", "-O1", "-fPIC", "-shared", "-fopenmp", "-w", "-I", npi, "-I", pyi, "-I", d + "/src", d + "/src/ctrans.c", "-o",
         d + "/skbeam/ext/ctrans" + suf, "-lgomp", "-lm"],
    ]
    ps = [] if "ctrans" not in what else [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for c in cmds]
    h = d + "/skbeam/core/accumulators/histogram"
    r = None if "hist" not in what else subprocess.run([PY, "-m", "cython", "-3", h + ".pyx", "-o", h + ".c"], capture_output=True, text=True, cwd=d)
    if r is None:
        pass
    elif r.returncode:
        err += r.stdout + r.stderr
    else:
        r = subprocess.run(["gcc", "-O0", "-fPIC", "-shared", "-w", "-I", npi, "-I", pyi, h + ".c", "-o", h + suf, "-lm"],
                           capture_output=True, text=True)
        if r.returncode:
            err += r.stdout + r.stderr
    for p in ps:
        o, _ = p.communicate()
        if p.returncode:
            err += o
    return d, err
