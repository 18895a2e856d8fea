#!/usr/bin/env python3
"""Parses the specification and builds the harness, so that a broken installation shows early."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
for tool in (["tlc", "-h"], ["cargo", "--version"]):
    subprocess.run(tool, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=False)
for module in ("Export", "Trace", "TraceStream", "SessionGen", "MCStream", "MCRanges", "MCWriter", "TraceWriter"):
    p = subprocess.run(["tla-sany", module + ".tla"], cwd=os.path.join(HERE, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.exit(p.stdout)
sys.exit(subprocess.run(["cargo", "build", "--offline", "--release", "--manifest-path", os.path.join(HERE, "harness", "Cargo.toml"),
                         "--target-dir", os.path.join(HERE, "build", "target")]).returncode)
