#!/usr/bin/env python3
"""Helper used by hand: prints `known:` lines for what a check reports now (never run by a check)."""
import sys, subprocess
for l in open("/verif/build/replay/%s.txt" % sys.argv[1]):
    if not l.startswith(" "):
        print("known: property=%s %s :: %s" % (sys.argv[1], l.strip(), sys.argv[2] if len(sys.argv) > 2 else ""))
