#!/usr/bin/env python3
"""Nothing has to be prepared: every check builds what it needs. Only verify the tools are there."""
import shutil, sys
missing = [t for t in ("clang++", "addr2line") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ok")
