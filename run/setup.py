#!/usr/bin/env python3
"""Everything is built by the checks themselves from /repo's working tree; this
only makes sure the tools are there and warms the Go build cache."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
c = check.Check("C01", "quick", 1)
try:
    c.cfg = dict(c.cfg, race=True)
    c.build()
    print("ok")
finally:
    shutil.rmtree(c.dir, ignore_errors=True)
