#!/usr/bin/env python3
"""Nothing is compiled ahead: every check builds what it needs from /repo. Verify that the tools are there."""
import os, shutil, sys
bad = [t for t in ("cmake", "ninja", "gcc", "java") if not shutil.which(t)]
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"): bad.append("tla2tools.jar")
print("missing: %s" % bad if bad else "ok")
sys.exit(1 if bad else 0)
