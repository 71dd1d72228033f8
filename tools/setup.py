#!/usr/bin/env python3
"""Checks that the tools the checks use are there. Nothing is built ahead: every check compiles its
workload programs from /repo's working tree."""
import shutil, sys
missing = [t for t in ("g++", "clang++", "valgrind") if not shutil.which(t)]
if missing:
    print("missing:", missing)
    sys.exit(1)
