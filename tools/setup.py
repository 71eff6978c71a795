#!/usr/bin/env python3
"""setup_cmd: everything is compiled by the checks themselves from /repo's working tree; this only
verifies that the tools are there and that the specifications parse."""
import glob, os, shutil, subprocess, sys, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("g++", "java", "python3"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
with tempfile.TemporaryDirectory() as d:
    for f in sorted(glob.glob(os.path.join(R, "spec", "*.tla"))):
        shutil.copy(f, d)
    for f in sorted(glob.glob(os.path.join(d, "*.tla"))):
        r = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", os.path.basename(f)], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or "*** Errors" in r.stdout or "Parse Error" in r.stdout:
            print(r.stdout[-1500:])
            bad += 1
sys.exit(1 if bad else 0)
