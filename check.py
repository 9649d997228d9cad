#!/usr/bin/env python3
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from aw import harness, build
try:
    rc = harness.main()
except build.BuildError as e:
    print("BUILD FAILED\n%s" % e, file=sys.stderr)
    rc = 2
sys.stdout.flush()
sys.exit(rc)
