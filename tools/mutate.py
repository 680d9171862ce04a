#!/usr/bin/env python3
"""Development aid: random small edits of the library's code (in scratch copies); lists those which neither the checks of the file nor
the stable tests notice. usage: mutate.py OUT.jsonl NPERFILE SEED WORKERS FILE:CHECK,CHECK ..."""
import json, os, queue, random, re, subprocess, sys, threading, time
out, nper, seed, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ ", " - "), (r" - ", " + "), (r" ?\* ?(?=[\w(])", " / "), (r" / ", " * "), (r"\+=", "-="), (r"-=", "+="), (r"\[0\]", "[1]"), (r"\[1\]", "[2]"), (r"\[2\]", "[0]"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bmax\(", "min("), (r"\bmin\(", "max("), (r"\bcontinue;", "break;"), (r"\.lower\b", ".upper"), (r"\.upper\b", ".lower"),
       (r"!(?=[\w(])", ""), (r"(?<![\w.\[])(\d+)(?=[;,) ]|UL\b)", lambda m: str(int(m.group(1)) + 1)), (r"(?<![\w.])(\d+\.\d+)", lambda m: "%g" % (float(m.group(1)) * 1.5 + 0.25)),
       (r"\binside\b", "outside"), (r"\blower\b", "upper"), (r"#pragma omp critical.*", ""), (r"reduction\(\+ ?: ?\w+\)", ""), (r"\bfirst\b", "second"), (r"\band\b", "or")]
def mutants(path, rng):
    lines = open(path).read().split("\n")
    res, comment = [], False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith(("/*", '"""')): comment = True
        skip = comment or not s or s.startswith(("//", "#include", "template", "*", "static_assert", "using ", "namespace", "QuESo_ASSERT", "typedef", "QuESo_INFO", "import", "from", "# ", "friend"))
        if "*/" in s or (comment and s.endswith('"""') and s != '"""'): comment = False
        if skip or "<<" in s and "QuESo" in s: continue
        code = l.split("//")[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2: continue
                if pat in (r" > ", r" < ") and ("template" in code or "std::" in code): continue
                new = code[:m.start()] + (rep(m) if callable(rep) else rep) + code[m.end():]
                res.append((i, new))
        if s.endswith(";") and re.match(r"^(this->)?[\w\.\->\[\]\(\)]+ ?(\(.*\)|[+-]?= .*);$", s) and not s.startswith(("return", "throw")): res.append((i, re.match(r"\s*", l).group(0) + ";"))
        if re.match(r"^\} else \{", s) is None and re.match(r"^\s*if ?\(.*\) ?\{?$", l) and "else" not in l:
            res.append((i, re.sub(r"if ?\((.*)\)( ?\{?)$", r"if (false)\2", l) if rng.random() < .5 else re.sub(r"if ?\((.*)\)( ?\{?)$", r"if (true)\2", l)))
    return lines, res
jobs = queue.Queue()
rng = random.Random(seed)
allj = []
for spec in sys.argv[5:]:
    f, checks = spec.split(":")
    lines, ms = mutants("/repo/" + f, rng)
    # only lines of the original repository
    bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "24e81e8..HEAD", "--", f], stdout=subprocess.PIPE, text=True).stdout.split("\n")
    ms = [m for m in ms if m[0] < len(bl) and bl[m[0]].startswith("^") and m[1].rstrip() != lines[m[0]].rstrip()]
    for i, new in rng.sample(ms, min(nper, len(ms))): allj.append((f, i, lines[i], new, checks.split(",")))
rng.shuffle(allj)
for j in allj: jobs.put(j)
lock = threading.Lock()
def work(n):
    wt, bw = "/tmp/mu%d" % n, "/tmp/mub%d" % n
    if not os.path.exists(wt): subprocess.run(["cp", "-a", "/repo", wt], check=True)
    while True:
        try: f, i, old, new, checks = jobs.get_nowait()
        except queue.Empty: return
        subprocess.run("git -C %s checkout -q -- . ; git -C %s fetch -q /repo; git -C %s reset -q --hard FETCH_HEAD" % (wt, wt, wt), shell=True)
        p = os.path.join(wt, f)
        L = open(p).read().split("\n"); L[i] = new
        open(p, "w").write("\n".join(L))
        r = dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), res={})
        t = time.time()
        for c in checks:
            e = dict(os.environ, VERIF_REPO=wt, VERIF_BUILD=bw, VERIF_NPROC=str(max(1, 8 // workers)))
            try:
                x = subprocess.run(["python3", V + "/tools/partsonly.py", c], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                rc, o = x.returncode, x.stdout
            except subprocess.TimeoutExpired: rc, o = 99, ""
            r["res"][c] = rc
            if rc == 1:
                m = re.search(r"rejected clauses: (\[.*?\])", o); r["clauses"] = m.group(1) if m else ""
                break
            if rc:
                r["err"] = o[-600:]
                if "error:" in o and ("ninja" in o or "FAILED" in o): r["res"]["build"] = 1; r.pop("err"); break
        r["s"] = round(time.time() - t)
        if not any(v == 1 for v in r["res"].values()):
            sh = "mount --bind %s /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh %s.json >/dev/null 2>&1" % (wt, wt)
            x = subprocess.run(["unshare", "-m", "bash", "-c", sh])
            try:
                b = json.load(open("/opt/vp/BASELINE.json"))["stable"]; tt = json.load(open(wt + ".json"))["passed"]
                r["tests"] = [y for y in b if y not in tt][:3] if x.returncode == 0 else "build-or-run"
                os.remove(wt + ".json")
            except Exception as ex: r["tests"] = "?" + str(ex)
        with lock: open(out, "a").write(json.dumps(r) + "\n")
ts = [threading.Thread(target=work, args=(n,)) for n in range(workers)]
for t in ts: t.start()
for t in ts: t.join()
