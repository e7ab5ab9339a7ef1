#!/usr/bin/env python3
"""Nothing to prebuild (each check compiles what it needs from /repo's current tree);
confirm that the tools the checks rely on are there."""
import shutil
import sys
missing = [t for t in ("g++", "gcc", "valgrind", "python3") if not shutil.which(t)]
print("missing tools: %s" % missing if missing else "tools present")
sys.exit(1 if "g++" in missing else 0)
