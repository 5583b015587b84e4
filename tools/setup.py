#!/usr/bin/env python3
"""Check that what the checks need is present. They build everything else themselves, from /repo's current tree."""
import shutil, sys
missing = [t for t in ("cmake", "ninja", "clang", "clang++", "gcc", "g++") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
