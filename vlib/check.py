"""A check = design models + parts; a part = scenario generator + driver + trace specification."""
import copy, json, random, sys, time, traceback
from . import core
from .core import log, ToolError


class Part:
    """One conformance part of a property.
    gen(rng, tier) -> scenarios; driver: command (None = C++ harness); module: trace specification;
    corrupt(scenario, obs) -> corrupted obs or None: used to demonstrate that the binding rejects wrong observations."""

    def __init__(self, name, module, gen, corrupt=None, cmd=None, threads=1, cost=None, cfg=None, reruns=2, post=None,
                 nproc=None):
        self.name, self.module, self.gen, self.corrupt = name, module, gen, corrupt
        self.cmd, self.threads, self.cost, self.cfg, self.reruns, self.post = cmd, threads, cost, cfg, reruns, post
        self.nproc = nproc


class Check:
    def __init__(self, prop, parts, models=(), python=False, assumptions=(), level="model_checking"):
        self.prop, self.parts, self.models, self.python = prop, parts, list(models), python
        self.assumptions, self.level = list(assumptions), level


def nontrivial_sample(s, o):
    t = json.dumps({"scenario": s, "observation": o})
    if len(t) > 1500:
        t = t[:1500] + "..."
        return t
    return {"scenario": s, "observation": o}


def run(chk):
    t0 = time.time()
    prop = chk.prop
    stats = core.Stats()
    core.build(python=chk.python)
    for m in chk.models:
        core.model_check(stats, **m) if isinstance(m, dict) else m(stats)
    viol, known, unconfirmed, samples, counts, rejected_corruptions = [], [], [], [], {}, 0
    kfs = core.known_findings(prop)
    for part in chk.parts:
        rng = random.Random("%s/%s/%d" % (prop, part.name, core.SEED))
        sc = part.gen(rng, core.TIER)
        # listed findings are replayed on every run, so that their state is always reported
        for k in kfs:
            if k.get("part") == part.name and "scenario" in k:
                sc.append(copy.deepcopy(k["scenario"]))
        for i, s in enumerate(sc):
            s["id"] = i + 1
        t = time.time()
        pairs = core.drive(sc, cmd=part.cmd, threads=part.threads, nproc=part.nproc)
        td = time.time() - t
        t = time.time()
        bad = core.validate(stats, part.module, pairs, cfg=part.cfg, cost=part.cost)
        log("part %s: %d scenarios, replay %.1fs, validation %.1fs, %d rejected" % (part.name, len(pairs), td, time.time() - t, len(bad)))
        counts[part.name] = {"scenarios": len(pairs), "distinct": len({json.dumps({k: v for k, v in s.items() if k != "id"}, sort_keys=True) for s, _ in pairs})}
        if pairs:
            samples.append({"part": part.name, "case": nontrivial_sample(*pairs[len(pairs) // 2])})
        todo = []
        for i in sorted(bad):
            s, o = pairs[i]
            k = next((k for k in kfs if core.matches(k, s, bad[i])), None)
            if k:
                known.append((k, s))
            else:
                todo.append(i)
        # confirm by fresh re-runs
        confirmed = together = 0
        for i in todo[:12]:
            s, o = pairs[i]
            ok = False
            for _ in range(part.reruns):
                again = core.drive([dict(s)], cmd=part.cmd, threads=part.threads, nproc=1)
                b2 = core.validate(stats, part.module, again, cfg=part.cfg, count=False)
                if b2:
                    ok = True
                    viol.append((part, s, again[0][1], b2[0], []))
                    break
            # what earlier scenarios left behind may show only in the same process
            n = part.nproc or max(1, core.NPROC // part.threads)
            run = [x for x, _ in pairs[i % n:i:n]]
            if not ok and run and together < 3:
                together += 1
                again, b2 = core.drive_together(run, s, part.module, part.cfg, cmd=part.cmd, threads=part.threads)
                if again is not None:
                    ok = True
                    viol.append((part, s, again, b2, run))
            if ok:
                confirmed += 1
                if confirmed >= 3:
                    break
            else:
                unconfirmed.append((part.name, s, bad[i]))
        # binding demonstration: corrupted observations have to be rejected
        if part.corrupt and not todo:
            cor = []
            pick = [x for i, x in enumerate(pairs) if i not in bad]
            rng.shuffle(pick)
            for s, o in pick:
                c = part.corrupt(rng, copy.deepcopy(s), copy.deepcopy(o))
                if c is not None:
                    cor.append((s, c))
                if len(cor) >= 8:
                    break
            if not cor:
                raise ToolError("no observation to corrupt in part " + part.name)
            b = core.validate(stats, part.module, cor, cfg=part.cfg, count=False, nproc=1)
            if len(b) != len(cor):
                missed = [cor[i] for i in range(len(cor)) if i not in b]
                raise ToolError("a corrupted observation was accepted in part %s: %s" % (part.name, json.dumps(missed[0])[:3000]))
            rejected_corruptions += len(cor)
    cov = {"states": stats.states, "transitions": stats.transitions, "traces_validated_against_impl": stats.traces,
           "samples": samples, "design_models": stats.models, "parts": counts,
           "corrupted_traces_rejected": rejected_corruptions, "unconfirmed_rejections": len(unconfirmed)}
    core.evidence(prop, chk.level, cov, t0, violations=len(viol), assumptions=chk.assumptions)
    for n, s, c in unconfirmed:
        log("not repeated, not reported: part %s clauses %s scenario %s" % (n, c, json.dumps(s)[:600]))
    seen = set()
    for k, s in known:
        if k["name"] not in seen:
            seen.add(k["name"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
    for part, s, o, c, run in viol[:10]:
        p = core.replay_file(prop, part.name, s, o, c, run)
        log("rejected clauses:", c, json.dumps(o)[:800])
        print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
    log("%s %s: %s" % (prop, core.TIER, "VIOLATED" if viol else "held"))
    return 1 if viol else 0
