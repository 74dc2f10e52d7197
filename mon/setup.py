#!/usr/bin/python3
"""Nothing is compiled: check that the interpreter and the packages the monitors use are there."""
import subprocess, sys, tempfile, os
d = tempfile.mkdtemp(prefix="rfsedmon-setup-")
env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
env.update(MPLBACKEND="Agg", MPLCONFIGDIR=d, PYTHONDONTWRITEBYTECODE="1", HOME=d)
r = subprocess.call(["/opt/venv/bin/python", "-W", "ignore", "-c",
                     "import numpy, scipy, obspy, rf, matplotlib, sklearn, seaborn; print('ok')"], env=env, cwd=d)
import shutil; shutil.rmtree(d, ignore_errors=True)
sys.exit(r)
