#!/bin/bash
# Nothing is kept between runs: every check compiles what it needs into a scratch directory. This verifies the tools are there.
cd "$(dirname "$0")" && exec /opt/venv/bin/python - <<'P'
import sys, tempfile
sys.path.insert(0, "lib")
import vlib, numpy, healpy, astropy
with tempfile.TemporaryDirectory() as d:
    vlib.javac(d + "/jc")
print("setup ok")
P
