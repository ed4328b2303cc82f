#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there (checks build what they need themselves)."""
import os, shutil, subprocess, sys
for t in ("g++", "java"):
    if not shutil.which(t): sys.exit("missing " + t)
for j in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(j): sys.exit("missing " + j)
print("ok")
