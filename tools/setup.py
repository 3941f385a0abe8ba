"""nothing to build: checks that the tools the framework needs are there"""
import sys, subprocess
import z3, sympy, mpmath, numpy
r = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, torch, numba; print(numpy.__version__, torch.__version__)"], capture_output=True, text=True)
print("z3", z3.get_version_string(), "repo python", r.stdout.strip(), r.stderr.strip()[-200:])
sys.exit(r.returncode)
