#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs itself."""
import shutil
import sys

missing = [t for t in ("gcc", "g++", "clang", "clang++", "make", "valgrind") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
sys.exit(1 if missing else 0)
