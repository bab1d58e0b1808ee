#!/usr/bin/env python3
"""replay.py FILE [--verbose]: rebuilds the harness from /repo's tree and replays one failing execution."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS
f = sys.argv[1]
prop = [l.split()[1] for l in open(f) if l.startswith("property ")][0]
sys.exit(subprocess.call([B.build(PROPS[prop]["target"]), "--replay", f] + sys.argv[2:]))
