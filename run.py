#!/usr/bin/env python3
"""python3 run.py <property>: runs the check of one property (VERIF_TIER, VERIF_SEED from the environment).
   python3 run.py --setup: builds everything once.   python3 run.py --replay FILE: replays a reported violation."""
import importlib, json, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, check


def load(prop):
    return importlib.import_module("vlib.props." + prop.lower()).CHECK


def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[1] in ("quick", "thorough"):
        core.TIER = a[1]
    try:
        if a and a[0] == "--setup":
            core.build(python=True)
            return 0
        if a and a[0] == "--replay":
            r = json.load(open(a[1]))
            chk = load(r["property"])
            core.build(python=chk.python)
            part = next(p for p in chk.parts if p.name == r["part"])
            if r.get("before"):
                o, bad = core.drive_together(r["before"], r["scenario"], part.module, part.cfg, cmd=part.cmd, threads=part.threads)
                print(json.dumps({"scenario": r["scenario"], "observation": o, "rejected_clauses": bad}, indent=1))
                return 1 if bad else 0
            pairs = core.drive([r["scenario"]], cmd=part.cmd, threads=part.threads, nproc=1)
            bad = core.validate(core.Stats(), part.module, pairs, cfg=part.cfg)
            print(json.dumps({"scenario": r["scenario"], "observation": pairs[0][1], "rejected_clauses": bad.get(0, [])}, indent=1))
            return 1 if bad else 0
        return check.run(load(a[0]))
    except core.ToolError as e:
        print("CHECK-ERROR (no verdict):", e, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
