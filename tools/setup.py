#!/usr/bin/env python3
"""Checks that the toolchains are there; there is nothing to build."""
import subprocess, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import build
for lane in ("stable-std", "nightly-std"):
    r = build.rustc(lane, ["--version"], cwd="/")
    print(lane, r.stdout.strip(), r.stderr.strip())
    if r.returncode != 0:
        sys.exit(1)
