#!/usr/bin/env python3
"""replay.py FILE: repeats a recorded violation exactly (exit 1 if it is reproduced, 0 if it no longer happens, 4 if it differs)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import simbuild, props
f = os.path.abspath(sys.argv[1])
prop = open(f).readline().split()[1]
v = props.PROPS[prop].get("variants", ["pattern"])
exe = simbuild.build(v[0])
extra = ["--compare", simbuild.build(v[1])] if len(v) > 1 else []
os.execv(exe, [exe, "replay", f] + extra + sys.argv[2:])
