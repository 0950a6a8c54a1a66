"""Scratch build of the package from /repo's working tree (never inside /repo).

build(dest) copies src/bayesbay, compiles every .pyx as the real build does (-O3 -ffast-math)
and, as package bayesbay_chk's kernels, a bounds-checked twin (decorators switched on)."""
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def _compile(work, pyx, modname, out):
    c = os.path.join(work, modname + ".cpp")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([PY, "-m", "cython", "--cplus", "-3", pyx, "-o", c], capture_output=True, text=True, env=env)
    if r.returncode:
        return "cython: " + r.stderr[-2000:]
    q = subprocess.run([PY, "-c", "import sysconfig,numpy;print(sysconfig.get_paths()['include']);print(numpy.get_include());"
                        "print(sysconfig.get_config_var('EXT_SUFFIX'))"], capture_output=True, text=True).stdout.split("\n")
    so = os.path.join(out, modname + q[2])
    r = subprocess.run(["g++", "-O3", "-ffast-math", "-march=native", "-w", "-shared", "-fPIC", "-I", q[0], "-I", q[1],
                        "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION", c, "-o", so], capture_output=True, text=True)
    os.unlink(c)
    return "g++: " + r.stderr[-2000:] if r.returncode else None


def build(dest):
    """-> error text or None"""
    src = os.path.join(REPO, "src", "bayesbay")
    pkg = os.path.join(dest, "bayesbay")
    shutil.copytree(src, pkg, ignore=shutil.ignore_patterns("*.so", "*.c", "*.cpp", "__pycache__", "*.o"))
    pyx = [os.path.join(d, f) for d, _, fs in os.walk(pkg) for f in fs if f.endswith(".pyx")]
    procs = []
    chk = os.path.join(dest, "chk")
    os.mkdir(chk)
    for p in pyx:
        mod = os.path.basename(p)[:-4]
        t = open(p).read()
        t = re.sub(r"boundscheck\(False\)", "boundscheck(True)", t)
        t = re.sub(r"wraparound\(True\)", "wraparound(False)", t)
        t = re.sub(r"boundscheck\s*=\s*False", "boundscheck=True", t)
        cp = os.path.join(chk, mod + ".pyx")
        open(cp, "w").write(t)
        for a in ((dest, p, mod, os.path.dirname(p)), (chk, cp, mod, chk)):
            pid = os.fork()
            if pid == 0:
                try:
                    e = _compile(*a)
                except BaseException as x:
                    e = repr(x)
                if e:
                    open(os.path.join(dest, "build_error"), "a").write(e)
                os._exit(0)
            procs.append(pid)
    for p in procs:
        os.waitpid(p, 0)
    ef = os.path.join(dest, "build_error")
    return open(ef).read() if os.path.exists(ef) else None


if __name__ == "__main__":
    os.makedirs(sys.argv[1], exist_ok=True)
    e = build(sys.argv[1])
    print(e or "ok")
    sys.exit(1 if e else 0)
