#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt (every check rebuilds what it needs from
/repo); this verifies that the tools the checks call are there."""
import os, shutil, sys
ok = True
for t in ("java", "gcc", "as", "ld", "make", "bison", "git", "tar", "ar"):
    if not shutil.which(t):
        print("missing tool", t)
        ok = t == "bison" and ok
for f in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(f):
        print("missing", f)
        ok = False
sys.exit(0 if ok else 1)
