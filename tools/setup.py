#!/usr/bin/env python3
"""Builds the conformance harness once (each check rebuilds what changed)."""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, RUSTFLAGS="--cfg jsparse_verif -Awarnings", CARGO_TARGET_DIR=os.path.join(ROOT, "build", "target"))
sys.exit(subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"), env=env).returncode)
