#!/usr/bin/env python3
"""Developer aid: peek.py ID PART N -> drives N generated scenarios and prints them with their observations."""
import importlib, json, random, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib import core
m = importlib.import_module("vlib.props." + sys.argv[1].lower())
part = next(p for p in m.CHECK.parts if p.name == sys.argv[2])
n = int(sys.argv[3])
sc = part.gen(random.Random(7), core.TIER)[:n]
for s, o in core.drive(sc, cmd=part.cmd, threads=part.threads):
    print(json.dumps({"s": s, "o": o}))
