#!/usr/bin/env python3
"""replay.py FILE: replays one violation file against the code in the repository's working tree (exit 1: it reproduces)."""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
path = sys.argv[1]
target = os.path.basename(path).split(".")[1]
exe = B.build([target])[target]
sys.exit(subprocess.call([exe, "replay", "--v", path]))
