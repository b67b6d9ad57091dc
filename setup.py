#!/usr/bin/env python3
"""One-time preparation: only checks that what the checks need is present; every check builds from source itself."""
import shutil, sys
missing = [t for t in ("g++", "addr2line", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: %s" % missing)
