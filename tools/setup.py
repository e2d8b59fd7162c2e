#!/usr/bin/env python3
"""Parses every specification module; nothing has to be built ahead of the checks."""
import subprocess, glob, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
mods = sorted(os.path.basename(f) for f in glob.glob(os.path.join(V, "spec", "*.tla")))
p = subprocess.run(["java", "-cp", J, "tla2sany.SANY"] + mods, cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
out = p.stdout.decode("utf8", "replace")
bad = p.returncode != 0 or "*** Errors" in out or "Fatal errors" in out
if bad: print(out[-4000:])
print("%d modules parsed" % len(mods))
sys.exit(1 if bad else 0)
