#!/usr/bin/env python3
"""Warm the build caches and check the tools: every check rebuilds what it needs."""
import sys
import check
import tempfile
try:
    check.build_gov()
    rc, o, e = check.sh(["verus", "--version"])
    print(o.strip() or e.strip())
    if rc != 0:
        sys.exit("verus is missing")
    print("translator built:", check.HERE + "/bin/gov")
except check.Broken as e:
    sys.exit(str(e))
