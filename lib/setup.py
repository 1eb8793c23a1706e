"""Checks that the tools the checks need are there (nothing has to be built)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ok = True
for p in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/venv/bin/python", "/repo/src/earthkit/regrid"):
    if not os.path.exists(p):
        print("missing", p)
        ok = False
ok = subprocess.run(["java", "-version"], stderr=subprocess.DEVNULL).returncode == 0 and ok
sys.exit(0 if ok else 1)
