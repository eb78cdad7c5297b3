#!/usr/bin/env python3
"""Nothing is kept between runs: every check builds what it needs. Only makes sure that the tools are there."""
import shutil, sys
missing = [t for t in ("clang++", "ninja", "ar") if shutil.which(t) is None]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ok")
