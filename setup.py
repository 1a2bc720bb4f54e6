"""setup_cmd: nothing is built ahead of time (every check extracts and verifies from /repo's
current source); this only confirms that the tools the checks call are present."""
import subprocess, sys, os
VT = "/opt/veriftools/pyvenv/bin/python3"
for c in (["clang++-18", "--version"], ["opt-18" if os.path.exists("/usr/bin/opt-18") else "opt", "--version"], [VT, "-c", "import z3"], ["c++filt", "--version"]):
    r = subprocess.run(c, capture_output=True)
    if r.returncode: print("missing:", c); sys.exit(1)
print("ok")
