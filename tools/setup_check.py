#!/usr/bin/env python3
"""Nothing is built: confirm that the tools the checks need are there."""
import os, shutil, subprocess, sys
T = "/opt/veriftools/tla"
for j in ("tla2tools.jar", "CommunityModules-deps.jar"):
    if not os.path.exists(os.path.join(T, j)):
        sys.exit("missing " + j)
if not shutil.which("java"):
    sys.exit("missing java")
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
print("tools present")
