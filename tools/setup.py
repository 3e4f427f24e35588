#!/usr/bin/env python3
"""nothing to build ahead: the checks build /repo's working tree themselves. Verifies that the tools are there."""
import shutil, sys, os
missing = [t for t in ("java", "cmake", "ninja", "g++", "python3") if not shutil.which(t)]
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"): missing.append("tla2tools.jar")
print("missing: %s" % missing if missing else "ok")
sys.exit(1 if missing else 0)
