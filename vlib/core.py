"""Shared machinery of the checks: build from /repo's working tree, replay scenarios into the real library, validate
the recorded observations with TLC against the specification, write evidence, and report."""
import copy, fcntl, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
SPECS = os.path.join(ROOT, "specs")
HARNESS = os.path.join(ROOT, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_NPROC") or max(1, min(8, os.cpu_count() or 1)))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class ToolError(Exception):
    """A failure of the machinery: neither held nor violated."""


def log(*a):
    print("[%7.1fs]" % (time.time() - T0), *a, flush=True)


T0 = time.time()

# ---------------------------------------------------------------- build

CXXFLAGS = "-Og -D_GLIBCXX_ASSERTIONS"


def _env():
    e = dict(os.environ)
    for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "PYTHONPATH", "CPPFLAGS"):
        e.pop(k, None)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["LANG"] = "C.UTF-8"
    return e


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=_env(), **kw)
    if r.returncode != 0:
        raise ToolError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def build(python=False):
    """Builds libQuESo (and the Python module) from /repo's working tree and the harness against it."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        q = os.path.join(BUILD, "q")
        # CMake copies the Python files at configure time: drop old copies, configure every time.
        for f in ("scripts", "kratos_interface"):
            shutil.rmtree(os.path.join(q, "QuESoPythonModule", f), ignore_errors=True)
        for f in ("__init__.py", "PyQuESo.py"):
            try:
                os.remove(os.path.join(q, "QuESoPythonModule", f))
            except OSError:
                pass
        t = time.time()
        _run(["cmake", "-S", REPO, "-B", q, "-G", "Ninja", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++",
              "-DCMAKE_BUILD_TYPE=FullDebug", "-DCMAKE_CXX_FLAGS=" + CXXFLAGS, "-DQUESO_BUILD_TESTING=OFF",
              "-DPYTHON_EXECUTABLE=/usr/bin/python3", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "--no-warn-unused-cli"])
        # harness objects: dependency-tracked by ninja
        h = os.path.join(BUILD, "h")
        os.makedirs(h, exist_ok=True)
        srcs = sorted(f for f in os.listdir(HARNESS) if f.endswith(".cpp"))
        inc = "-I%s -I%s/queso -I%s/external_libraries" % (REPO, REPO, REPO)
        with open(os.path.join(h, "build.ninja.tmp"), "w") as f:
            f.write("rule cxx\n  command = g++ -std=gnu++20 %s -fopenmp %s -MMD -MF $out.d -c $in -o $out\n"
                    "  depfile = $out.d\n  deps = gcc\n" % (CXXFLAGS, inc))
            f.write("rule link\n  command = g++ -fopenmp $in -L%s/lib -lQuESo -Wl,-rpath,%s/lib -o $out\n" % (q, q))
            for s in srcs:
                f.write("build %s.o: cxx %s\n" % (s[:-4], os.path.join(HARNESS, s)))
            f.write("rule pymod\n  command = g++ -std=gnu++20 %s -fopenmp -fPIC -shared -fvisibility=hidden %s -I%s -I/usr/include/python3.12 "
                    "-MMD -MF $out.d $in -L%s/lib -lQuESo -Wl,-rpath,%s/lib -o $out\n  depfile = $out.d\n  deps = gcc\n" % (CXXFLAGS, inc, HARNESS, q, q))
            f.write("build %s/verifview.so: pymod %s | %s/lib/libQuESo.so\n" % (q, os.path.join(HARNESS, "py", "pyview.cpp"), q))
            f.write("build drv: link %s | %s/lib/libQuESo.so\n" % (" ".join(s[:-4] + ".o" for s in srcs), q))
        os.replace(os.path.join(h, "build.ninja.tmp"), os.path.join(h, "build.ninja"))
        objs = [s[:-4] + ".o" for s in srcs]
        with ThreadPoolExecutor(2) as ex:
            a = ex.submit(_run, ["ninja", "-C", q] + ([] if python else ["lib/libQuESo.so"]))
            b = ex.submit(_run, ["ninja", "-C", h] + objs)
            a.result()
            b.result()
        _run(["ninja", "-C", h, "drv"] + ([os.path.join(q, "verifview.so")] if python else []))
        if python:
            shutil.copy2(os.path.join(q, "lib", "libQuESo.so"), os.path.join(q, "QuESoPythonModule"))
        log("built from %s in %.1fs" % (REPO, time.time() - t))


# ---------------------------------------------------------------- replay into the real code

HANG_S = 120


def _drive_chunk(cmd, chunk, env, workdir, tag):
    """Feeds scenarios one by one to the driver; a crash or hang becomes the observation of its scenario."""
    out = []
    todo = list(chunk)
    n = 0
    while todo:
        n += 1
        fin = os.path.join(workdir, "%s.%d.in" % (tag, n))
        fout = os.path.join(workdir, "%s.%d.out" % (tag, n))
        ferr = os.path.join(workdir, "%s.%d.err" % (tag, n))
        with open(fin, "w") as f:
            for s in todo:
                f.write(json.dumps(s) + "\n")
        with open(ferr, "wb") as fe:
            p = subprocess.Popen(cmd + [fin, fout], stdout=subprocess.DEVNULL, stderr=fe, env=env, cwd=workdir,
                                 start_new_session=True)
            last, tl = -1, time.time()
            hang = False
            while True:
                try:
                    p.wait(1 if time.time() - tl > 2 else 0.05)
                    break
                except subprocess.TimeoutExpired:
                    sz = os.path.getsize(fout) if os.path.exists(fout) else 0
                    if sz != last:
                        last, tl = sz, time.time()
                    elif time.time() - tl > HANG_S:
                        hang = True
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        break
        got = []
        if os.path.exists(fout):
            with open(fout, errors="replace") as f:
                for line in f:
                    if not line.endswith("\n"):
                        break
                    got.append(json.loads(line))
        if len(got) > len(todo):
            raise ToolError("driver wrote more observations than scenarios")
        out += list(zip(todo[:len(got)], got))
        todo = todo[len(got):]
        if p.returncode == 3:
            raise ToolError("driver rejected a scenario: " + open(ferr, errors="replace").read()[-500:])
        if todo:
            err = open(ferr, errors="replace").read()[-400:]
            st = "hang" if hang else "crash"
            if p.returncode == 0:
                raise ToolError("driver ended early without an error: " + err)
            out.append((todo[0], {"st": st, "rc": p.returncode, "what": err}))
            todo = todo[1:]
            if sum(1 for _, o in out if o.get("st") in ("crash", "hang")) >= 6:
                break  # enough evidence; the remaining scenarios of this chunk are not run
        for f in (fin, fout, ferr):
            try:
                os.remove(f)
            except OSError:
                pass
    return out


def drive(scenarios, cmd=None, threads=1, nproc=None, timeout=None):
    """Replays every scenario into the real library; returns [(scenario, observation)] in scenario order."""
    for i, s in enumerate(scenarios):
        s.setdefault("id", i + 1)
    cmd = cmd or [os.path.join(BUILD, "h", "drv")]
    nproc = nproc or max(1, NPROC // threads)
    env = _env()
    env["OMP_NUM_THREADS"] = str(threads)
    env["OMP_WAIT_POLICY"] = "passive"
    # freed and fresh memory holds a pattern, so that stale references and uninitialised values show
    env["MALLOC_PERTURB_"] = "165"
    env["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"
    env["PYTHONPATH"] = os.path.join(BUILD, "q")
    env["LD_LIBRARY_PATH"] = os.path.join(BUILD, "q", "lib")
    wd = tempfile.mkdtemp(prefix="drv", dir=BUILD)
    try:
        chunks = [scenarios[i::nproc] for i in range(nproc)]
        with ThreadPoolExecutor(nproc) as ex:
            fs = [ex.submit(_drive_chunk, cmd, c, env, wd, "c%d" % i) for i, c in enumerate(chunks) if c]
            res = [f.result() for f in fs]
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    allr = [x for r in res for x in r]
    order = {id(s): i for i, s in enumerate(scenarios)}
    allr.sort(key=lambda x: order[id(x[0])])
    return allr


# ---------------------------------------------------------------- TLC

def _clean(x):
    """Drops floats (TLC has none) and bounds integers to what TLC can represent."""
    if isinstance(x, bool) or x is None:
        return bool(x) if x is not None else None
    if isinstance(x, float):
        return None
    if isinstance(x, int):
        return max(-1000000000, min(1000000000, x))
    if isinstance(x, dict):
        r = {}
        for k, v in x.items():
            c = _clean(v)
            if c is not None and not (isinstance(v, list) and v and c == [] and isinstance(v[0], float)):
                r[k] = c
        return r
    if isinstance(x, list):
        return [c for c in (_clean(v) for v in x) if c is not None]
    return x


def tlc(module, cfg, env=None, workers=1, extra=(), timeout=800, heap="2g", wd=None, seed=None):
    """Runs TLC; returns (ok, output, states_generated, distinct)."""
    own = wd is None
    wd = wd or tempfile.mkdtemp(prefix="tlc", dir=BUILD)
    e = _env()
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", TLA_CP,
           "-DTLA-Library=" + SPECS, "tlc2.TLC", "-metadir", wd, "-workers", str(workers), "-config", cfg,
           "-noGenerateSpecTE", "-nowarning"] + list(extra)
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd += [os.path.join(SPECS, module)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=SPECS,
                           timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        if own:
            shutil.rmtree(wd, ignore_errors=True)
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", r.stdout)
    gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    ok = r.returncode == 0 and "Error:" not in r.stdout
    return ok, r.stdout, gen, dist


class Stats:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.models = []


def model_check(stats, module, cfg=None, workers=None, timeout=600, env=None, min_states=2, extra=(), refute=None,
                tier=None):
    """Exhaustive check of a design model. Its failure is a failure of the specification, not of the code.
    refute: name of the invariant that a deliberately broken variant of the model has to violate."""
    if tier and tier != TIER:
        return ""
    cfg = cfg or module.replace(".tla", ".cfg")
    t = time.time()
    ok, out, gen, dist = tlc(module, os.path.join(SPECS, cfg), workers=workers or NPROC, timeout=timeout, env=env,
                             heap="8g", extra=extra)
    if refute:
        if ok or ("%s is violated" % refute) not in out:
            raise ToolError("the broken variant %s (%s) was not refuted:\n%s" % (module, cfg, out[-4000:]))
        stats.models.append({"module": module, "config": os.path.basename(cfg), "refuted_invariant": refute})
        log("model %s/%s: refuted as expected (%s)" % (module, os.path.basename(cfg), refute))
        return out
    if not ok or dist < min_states:
        raise ToolError("design model %s (%s) failed:\n%s" % (module, cfg, out[-4000:]))
    stats.states += dist
    stats.transitions += gen
    stats.models.append({"module": module, "config": os.path.basename(cfg), "distinct_states": dist,
                         "transitions": gen, "seconds": round(time.time() - t, 1)})
    log("model %s/%s: %d distinct states, %d transitions, %.1fs" % (module, os.path.basename(cfg), dist, gen, time.time() - t))
    return out


def behaviours(module, cfg, num, depth, seed, key="ops", timeout=600, nproc=4):
    """Behaviours of a design model, sampled by TLC's simulator: the model prints "BEH <json>" for a complete history.
    TLC prints every successor of the last step; one per sampled behaviour is kept."""
    def one(i):
        k = num // nproc + (1 if i < num % nproc else 0)
        if k == 0:
            return []
        ok, out, _, _ = tlc(module, os.path.join(SPECS, cfg), extra=["-simulate", "num=%d" % k, "-depth", str(depth)],
                            seed=seed * 101 + i + 1, timeout=timeout)
        if "Error:" in out:
            raise ToolError("simulation of %s failed:\n%s" % (module, out[-3000:]))
        res, last = [], None
        for m in re.finditer(r'^"?BEH (\{.*\})"?$', out, re.M):
            txt = m.group(1)
            try:
                b = json.loads(txt)
            except ValueError:
                b = json.loads(txt.encode().decode("unicode_escape"))
            pre = json.dumps([b[key][:-1], {a: v for a, v in b.items() if a != key}], sort_keys=True)
            if pre != last:
                res.append([])
            last = pre
            res[-1].append(b)
        rng = random.Random(seed * 7919 + i)
        return [rng.choice(r) for r in res]

    with ThreadPoolExecutor(nproc) as ex:
        allb = [b for r in ex.map(one, range(nproc)) for b in r]
    if len(allb) < num // 2:
        raise ToolError("simulation of %s gave only %d behaviours" % (module, len(allb)))
    return allb


def validate(stats, module, pairs, cfg=None, nproc=None, timeout=800, count=True, cost=None, env=None):
    """Validates observations against the trace specification. Returns {index in pairs: [failed clauses]}."""
    cfg = os.path.join(SPECS, cfg or module.replace(".tla", ".cfg"))
    if not pairs:
        return {}
    nproc = min(nproc or NPROC, max(1, (len(pairs) + 3) // 4))
    idx = list(range(len(pairs)))
    if cost:
        idx.sort(key=lambda i: -cost(*pairs[i]))
    groups = [idx[i::nproc] for i in range(nproc)]
    wd = tempfile.mkdtemp(prefix="val", dir=BUILD)
    bad = {}

    def one(gi):
        g = list(groups[gi])
        n = len(g)
        path = os.path.join(wd, "trace%d.ndjson" % gi)
        res, tgen, tdist = {}, 0, 0
        while g:
            with open(path, "w") as f:
                for i in g:
                    s, o = pairs[i]
                    f.write(json.dumps(_clean({"s": s, "o": o})) + "\n")
            md = os.path.join(wd, "m%d" % gi)
            os.makedirs(md, exist_ok=True)
            e = {"VERIF_TRACE": path}
            e.update(env or {})
            ok, out, gen, dist = tlc(module, cfg, env=e, timeout=timeout, wd=md)
            tgen, tdist = tgen + gen, tdist + dist
            now = {}
            for m in re.finditer(r'^"?BAD (\{.*\})"?$', out, re.M):
                txt = m.group(1)
                try:
                    r = json.loads(txt)
                except ValueError:
                    r = json.loads(txt.encode().decode("unicode_escape"))
                now[g[r["l"] - 1]] = sorted(r["v"])
            res.update(now)
            if "The error occurred when TLC was evaluating the nested" in out:
                # The verdict is undefined for this observation: it has a shape no behaviour of the specification has.
                st = re.findall(r"^/\\ l = (\d+)", out, re.M)
                if not st:
                    raise ToolError("TLC did not judge the trace (%s):\n%s" % (module, out[-4000:]))
                k = int(st[-1]) - 1
                res[g[k]] = ["observation-of-no-specified-shape"]
                log("undefined verdict in %s: %s" % (module, " ".join(out[out.index("Error:"):][:600].split())))
                if sum(1 for v in res.values() if v == ["observation-of-no-specified-shape"]) >= 3:
                    break  # enough evidence
                g = g[k + 1:]
                continue
            fin = re.search(r"CONSUMED (\d+)", out)
            if not fin or int(fin.group(1)) != len(g) or (not ok and not now):
                raise ToolError("TLC did not judge the trace (%s):\n%s" % (module, out[-4000:]))
            break
        return res, tgen, tdist, n

    try:
        with ThreadPoolExecutor(nproc) as ex:
            for res, gen, dist, n in ex.map(one, range(len(groups))):
                bad.update(res)
                if count:
                    stats.states += dist
                    stats.transitions += gen
                    stats.traces += n
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return bad


# ---------------------------------------------------------------- reporting

def known_findings(prop):
    try:
        with open(os.path.join(ROOT, "known_findings.json")) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == prop]
    except FileNotFoundError:
        return []


def matches(kf, scenario, clauses):
    """A finding matches only the exact input it names and the clauses it lists."""
    want = kf["match"]
    return all(json.dumps(scenario.get(k), sort_keys=True) == json.dumps(v, sort_keys=True) for k, v in want.items()) \
        and set(clauses) <= set(kf["clauses"])


def evidence(prop, level, coverage, t0, violations=0, assumptions=()):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    e = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage,
         "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": violations}
    p = os.path.join(ROOT, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
    os.replace(p + ".tmp", p)


def drive_together(run, s, module, cfg, **kw):
    """One process that replays what came before a scenario, too; returns its observation and the rejected clauses.
    A crash of any of them counts, except by SIGKILL: the sandbox ends processes when memory runs out."""
    pairs = drive([copy.deepcopy(x) for x in run] + [copy.deepcopy(s)], nproc=1, **kw)
    for i, (t, o) in enumerate(pairs):
        if o.get("st") == "crash" and o.get("rc") in (-4, -6, -7, -8, -11):
            return o, ["no-crash"]
    b = validate(Stats(), module, pairs[-1:], cfg=cfg, count=False) if len(pairs) == len(run) + 1 else {}
    return (pairs[-1][1], b[0]) if b and pairs[-1][1].get("st") not in ("crash", "hang") else (None, [])


def replay_file(prop, part, scenario, obs, clauses, before=()):
    d = os.path.join(BUILD, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "part": part, "scenario": scenario, "observation": obs, "rejected_clauses": clauses, "before": list(before),
            "how": "cd /verif && python3 run.py --replay <this file>"}
    h = hashlib.sha1(json.dumps([part, scenario], sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(p, "w") as f:
        json.dump(body, f, indent=1)
    return p
