#!/usr/bin/env python3
"""Nothing is built ahead: every check builds its harness from /repo's working tree.  This only makes
sure that what the harnesses need is there."""
import shutil, sys
missing = [t for t in ("g++", "cmake") if not shutil.which(t)]
for f in ("/usr/include/boost/version.hpp", "/usr/include/eigen3/Eigen/Dense"):
    try:
        open(f).close()
    except OSError:
        missing.append(f)
print("missing: " + ", ".join(missing) if missing else "ok")
sys.exit(1 if missing else 0)
