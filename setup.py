#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles what it needs from /repo. This only confirms the toolchain."""
import shutil, sys
miss = [t for t in ("gcc", "g++", "clang", "clang++", "ar") if not shutil.which(t)]
print("missing: %s" % miss if miss else "toolchain present")
sys.exit(1 if miss else 0)
