#!/usr/bin/env python3
"""setup_cmd: the tools are there; every check rebuilds what it needs by itself."""
import shutil, sys
missing = [t for t in ("g++",) if not shutil.which(t)]
if missing:
    print("missing: %s" % missing)
    sys.exit(1)
print("ready")
