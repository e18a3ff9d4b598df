#!/usr/bin/env python3
"""Builds every harness once, so that later builds only compile what changed."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for c in json.load(open(V + "/MANIFEST.json"))["checks"]:
    r = subprocess.run([sys.executable, V + "/run.py", c["property"], "--build-only"])
    if r.returncode:
        sys.exit(r.returncode)
