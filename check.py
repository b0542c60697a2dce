#!/usr/bin/env python3
"""check.py ID : decides one property of /repo's current tree by static analysis (see DESIGN.md)."""
import sys
from vlib import *
import checks

def main():
    pid = sys.argv[1]
    f = checks.CHECKS[pid]
    try: f(pid)
    except BuildError as e:
        rep = Report(pid)
        rep.found("build", "build", "the public API the entry points are written against no longer compiles: " + str(e)[:1500])
        rep.cov = {"explanation": "build of the entry points failed", "obligations": 1, "discharged": 0, "checker_cmd": "emit.sh", "trusted_base": []}
        rep.finish()
if __name__ == "__main__":
    main()
