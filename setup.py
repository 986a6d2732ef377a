"""Checks that the tools the checks need are there, and that the specifications parse."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "harness"))
sys.dont_write_bytecode = True
from common import JARS, PY
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
for j in JARS.split(":"):
    assert os.path.exists(j), j
subprocess.run([PY, "-c", "import sys; assert sys.version_info >= (3, 8)"], check=True)
bad = 0
for f in sorted(glob.glob(os.path.join(V, "spec", "*.tla"))):
    p = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", f], capture_output=True, text=True, cwd=os.path.join(V, "spec"))
    if "Fatal errors" in p.stdout or "*** Errors" in p.stdout or p.returncode:
        bad += 1
        print(f, p.stdout[-1500:])
print("setup ok" if not bad else "setup failed")
sys.exit(1 if bad else 0)
