#!/usr/bin/env python3
"""Nothing to build ahead of time: every check builds from /repo's tree. This
only verifies that the tools the checks need are present."""
import shutil, sys
ok = all(shutil.which(p) for p in ("clang++-17", "clang++-18"))
print("tools present" if ok else "clang++-17 / clang++-18 missing")
sys.exit(0 if ok else 1)
