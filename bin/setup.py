#!/usr/bin/env python3
"""Checks that the tools the checks build with are here; the checks themselves build from /repo on every run."""
import shutil, subprocess, sys
missing = [t for t in ("g++", "gdal-config", "pkg-config") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + " ".join(missing))
if subprocess.call(["pkg-config", "--exists", "libmongoc-1.0"]):
    sys.exit("libmongoc-1.0 not found")
print("ready")
