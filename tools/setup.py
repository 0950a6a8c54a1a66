"""setup_cmd: nothing to install; checks that the tools the checks use are there"""
import subprocess, sys
import z3, cvc5, sympy  # noqa
r = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, Cython, joblib, shapely"])
print("z3", z3.get_version_string(), "cvc5", cvc5.__version__)
sys.exit(r.returncode)
