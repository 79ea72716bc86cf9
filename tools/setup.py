#!/usr/bin/env python3
"""setup_cmd: the checks compile their own harness from /repo's current tree, so there is nothing
to build in advance. This verifies that the tools they need work here."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
for v in check.VARIANTS:
    print("%s: %s" % (v, "works" if check.compiler_works(v) else "DOES NOT WORK"))
