#!/usr/bin/env python3
"""Development aid: writes seeded/<id>/{patch.diff,meta.json,demo.sh[,demo.cpp]} from (id, property, file, old, new, needs, breaks, demo).
Input: a Python file defining B = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, cpp=... or sh=...)]."""
import json, os, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Exit 0: the property holds for the demonstrated case, nonzero: it does not. Run with cwd = repository, after the build.
set -u
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++20 -Og -fopenmp -I"$R" -I"$R/queso" -I"$R/external_libraries" "$D/demo.cpp" \\
    -L"$R/_build/lib" -lQuESo -Wl,-rpath,"$R/_build/lib" -o "$T/demo" || exit 2
cd "$T"
timeout 200 ./demo
'''
PY = '''#!/bin/bash
# Exit 0: the property holds for the demonstrated case, nonzero: it does not. Run with cwd = repository, after the build.
set -u
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$R/_build" timeout 200 /usr/bin/python3 "$D/demo.py"
'''
COMMON = open(os.path.join(ROOT, "tools", "demo_common.hpp")).read()
for b in runpy.run_path(sys.argv[1])["B"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
    d = os.path.join(ROOT, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(); subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
    for f, o, n in b["edits"]:
        p = os.path.join(t, "r", f); s = open(p).read()
        assert s.count(o) == 1, (b["id"], f, s.count(o))
        open(p, "w").write(s.replace(o, n))
    diff = subprocess.run(["git", "-C", t + "/r", "diff"], stdout=subprocess.PIPE, text=True).stdout
    shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "cpp" in b:
        open(d + "/demo.hpp", "w").write(COMMON); open(d + "/demo.cpp", "w").write('#include "demo.hpp"\n' + b["cpp"]); open(d + "/demo.sh", "w").write(SH)
    else:
        open(d + "/demo.py", "w").write(b["py"]); open(d + "/demo.sh", "w").write(PY)
    for c in b.get("copy", []):
        shutil.copytree(os.path.join(ROOT, c), os.path.join(d, os.path.basename(c)), dirs_exist_ok=True, ignore=shutil.ignore_patterns("__pycache__"))
    print(b["id"])
