#!/usr/bin/env python3
"""Nothing is built ahead of the checks (they build from /repo's working tree); this only makes sure
that the tools are there and the specifications parse."""
import glob
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for tool in (["g++", "--version"], ["java", "-version"]):
    subprocess.run(tool, check=True, capture_output=True)
bad = 0
for f in sorted(glob.glob(os.path.join(VERIF, "spec", "*.tla"))):
    r = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
                        "tla2sany.SANY", f], capture_output=True, text=True, cwd=os.path.join(VERIF, "spec"))
    if r.returncode:
        bad = 1
        print(f, r.stdout[-800:])
os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
print("setup ok" if not bad else "setup failed")
sys.exit(bad)
