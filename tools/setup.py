#!/usr/bin/env python3
"""setup_cmd: nothing is kept between runs; this only checks that the tools are there."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib import build
print(build.sh(["go", "version"]).stdout.strip())
print(build.sh(["java", "-version"]).stdout.strip().splitlines()[0])
