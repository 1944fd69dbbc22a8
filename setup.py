"""Checks that what the framework needs is there and builds the kernels once (each check rebuilds them itself)."""
import os
import subprocess
import sys

here = os.path.dirname(os.path.realpath(__file__))
r = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, netCDF4, sqlite3; import sys; sys.path.insert(0, 'sim'); import harness; ok, m = harness.build_kernels(); print(m[-300:] if not ok else 'kernels built'); sys.exit(0 if ok else 1)"],
                   cwd=here)
sys.exit(r.returncode)
