#!/usr/bin/env python3
"""Checks that the tools are there and that every specification parses (nothing is installed or downloaded)."""
import glob, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
for t in ("java", "gcc", "python3"):
    if not shutil.which(t): sys.exit("missing tool: " + t)
os.makedirs(os.path.join(H, "build"), exist_ok=True); os.makedirs(os.path.join(H, "evidence"), exist_ok=True)
J = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
mods = sorted(glob.glob(os.path.join(H, "spec", "*.tla")))
with tempfile.TemporaryDirectory(dir=os.path.join(H, "build")) as d:
    p = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", J, "tla2sany.SANY"] + [os.path.basename(m) for m in mods],
                       cwd=os.path.join(H, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.returncode or "*** Errors" in p.stdout: print(p.stdout[-4000:]); sys.exit("a specification does not parse")
print("ok: %d specification modules parse" % len(mods))
