#!/usr/bin/env python3
"""Development aid: the conformance parts of a check without its design models. usage: partsonly.py ID [quick|thorough]"""
import importlib, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.environ["VERIF_TIER"] = sys.argv[2] if len(sys.argv) > 2 else "quick"
from vlib import check
c = importlib.import_module("vlib.props." + sys.argv[1].lower()).CHECK
c.models = []
sys.exit(check.run(c))
