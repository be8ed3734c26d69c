#!/usr/bin/env python3
"""Self test of the controlled scheduler (not a check of cloudini): python3 selftest/run.py"""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
from checks import mcprog
exe = check.build_program("SELF", "mc", mcprog("selftest/mc_selftest.cpp"))
bad = 0
for k in range(10):
    for pb in ("-1", "2", "9"):
        r = subprocess.run([exe, str(k), pb], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        bad += r.returncode != 0
        print(k, pb, r.returncode, r.stdout.decode()[:160].strip())
sys.exit(1 if bad else 0)
