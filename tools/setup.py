#!/usr/bin/env python3
"""setup_cmd: the specifications parse and the tools are there."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mv import tlc

bad = 0
for path in sorted(glob.glob(os.path.join(tlc.SPEC, "*.tla"))):
    p = subprocess.run(["java", "-cp", tlc.CP, "tla2sany.SANY", os.path.basename(path)], cwd=tlc.SPEC,
                       capture_output=True, text=True)
    if p.returncode or "*** Errors" in p.stdout:
        print(p.stdout)
        bad = 1
print("specifications parsed" if not bad else "specifications do not parse")
sys.exit(bad)
