"""Runs TLC on the specifications and binds them to the code through the Go drivers."""
import json, os, re, shutil, subprocess, sys, time, tempfile, hashlib
from . import build
from .build import VERIF, BUILD, InfraError

TLA = os.path.join(VERIF, "tla")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
WORK = os.path.join(BUILD, "work")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


def tla_val(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v.replace("\n", "\\n")
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla_val(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_val(x) for x in v) + ">>"
    if v == {}:
        return "[x \\in {} |-> 0]"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla_val(x)) for k, x in v.items()) + "]"
    raise ValueError(v)


_n = 0


def workdir(name):
    global _n
    _n += 1
    d = os.path.join(WORK, "%02d_%s" % (_n, name))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def setup_dir(name, spec, consts, top):
    """A directory with all modules and Component.tla, which extends spec with its constants bound."""
    d = workdir(name)
    for f in os.listdir(TLA):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(TLA, f), d)
    if spec:
        open(os.path.join(d, "Component.tla"), "w").write(
            "---- MODULE Component ----\nEXTENDS %s\n%s\n====\n" % (
                spec, "\n".join("const_%s == %s" % (k, tla_val(v)) for k, v in consts.items())))
    return d


def tail(out):
    return "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing file", "Semantic processing", '"{', "<<")))[-2500:]


class TLCResult:
    pass


def tlc(d, module, cfg, workers=4, timeout=600, env=None, opts=(), heap="6g", props=()):
    open(os.path.join(d, module + ".cfg"), "w").write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m"] + list(props) + ["-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(d, "states"), "-config", module + ".cfg", "-noGenerateSpecTE"] + list(opts) + [module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise InfraError("TLC timeout on %s" % module)
    r = TLCResult()
    r.out, r.rc, r.wall = p.stdout, p.returncode, time.time() - t
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.out)
    r.gen, r.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return r


def bind(consts):
    return "".join("CONSTANT %s <- const_%s\n" % (k, k) for k in consts)


class Ctx:
    """Accumulates what one check covered."""

    def __init__(self, pid):
        self.pid = pid
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.parts = []
        self.violation = None
        self.assumptions = []
        self.known = []
        self.skipped = []
        self.bins = {}

    def part(self, **kw):
        self.parts.append(kw)
        log(json.dumps(kw)[:400])

    def finding(self, text):
        """Is this failure listed in known_findings.txt? If so it is reported as such."""
        if "known: property=%s %s" % (self.pid, text) not in open(os.path.join(build.VERIF, "known_findings.txt")).read().splitlines():
            return False
        if text not in self.known:
            self.known.append(text)
        return True

    def sample(self, x):
        if len(self.samples) < 8:
            self.samples.append(x)

    def violate(self, what, data):
        """Records a violation by the real code (first one wins)."""
        if self.violation is None:
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s.json" % self.pid)
            json.dump({"property": self.pid, "what": what, "data": data}, open(p, "w"), indent=1)
            self.violation = p
            log("VIOLATION", what, json.dumps(data)[:3000])


class Violation(Exception):
    pass


def stop_if_violated(ctx):
    if ctx.violation:
        raise Violation()


# ---------------------------------------------------------------- model and replay

def seq_model(ctx, name, spec, consts, emit=True, timeout=300, workers=None):
    """Exhaustive TLC run; with emit returns the transition graph."""
    d = setup_dir("seq_" + name, spec, consts, "SeqModel")
    cfg = "INIT Init\nNEXT Next\nVIEW View\nINVARIANT Invariant\n" + ("INVARIANT Start\n" if emit else "") + \
          "ACTION_CONSTRAINT %s\nCHECK_DEADLOCK FALSE\n" % ("Emit" if emit else "Check") + bind(consts)
    r = tlc(d, "SeqModel", cfg, workers=workers or (1 if emit else 8), timeout=timeout)
    if r.rc != 0 or "Error:" in r.out:
        raise InfraError("specification %s fails its own check:\n%s" % (spec, "\n".join(l for l in r.out.splitlines() if not l.startswith('"{'))[-3000:]))
    ctx.states += r.distinct
    ctx.transitions += r.gen
    ctx.part(model=spec, consts={k: str(tla_val(v))[:200] for k, v in consts.items()}, states=r.distinct, generated=r.gen, wall=round(r.wall, 1), exhaustive=True)
    if not emit:
        return None
    ids, init, trans = {}, [], {}

    def sid(x):
        k = json.dumps(x, sort_keys=True)
        if k not in ids:
            ids[k] = len(ids)
        return ids[k]
    for line in r.out.splitlines():
        if line.startswith('"{'):
            j = json.loads(json.loads(line))
            if "i" in j:
                init.append((sid(j["i"]), j["i"]))
            else:
                f, t = sid(j["f"]), sid(j["t"])
                o, rr = j["o"] or [], j["r"] or []
                if isinstance(rr, dict):
                    rr = []
                alts = trans.setdefault((f, json.dumps(o)), [])
                if [rr, t] not in alts:
                    alts.append([rr, t])
    return {"n": len(ids), "init": init, "trans": trans}


def tree(ctx, kind):
    if kind not in ctx.bins:
        if "raw" not in ctx.bins:
            ctx.bins["raw"] = build.raw_tree()
        if kind == "ins":
            ctx.bins["ins"] = build.ins_tree(ctx.ins_pkgs)
    return ctx.bins[kind]


def driver(ctx, kind, pkg):
    k = kind + ":" + pkg
    if k not in ctx.bins:
        t = tree(ctx, kind)
        ctx.bins[k] = build.go_build(t, "zzv/" + pkg, "%s_%s_%s" % (kind, pkg.replace("/", "_"), ctx.pid))
    return ctx.bins[k]


def run_driver(ctx, kind, pkg, mode, inp, timeout=600, env=None, name=""):
    b = driver(ctx, kind, pkg)
    d = workdir("drv_%s_%s" % (mode, name or pkg.replace("/", "_")))
    i, o = os.path.join(d, "in.json"), os.path.join(d, "out.ndjson")
    json.dump(inp, open(i, "w"))
    e = build.env()
    e["VSCRATCH"] = d
    e["GOTRACEBACK"] = "single"
    e.update(env or {})
    try:
        p = subprocess.run([b, mode, i, o], env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise InfraError("driver %s %s timed out" % (pkg, mode))
    recs = []
    if os.path.exists(o):
        for line in open(o):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
    return p, recs


def crashed(ctx, p, what):
    """A driver that died: a crash of the code under test is a violation, anything else an error."""
    if p.returncode == 0:
        return False
    if p.returncode == 7:
        ctx.violate(what + ": an operation did not return within 30 s", {"hang": p.stdout[-4000:]})
        return True
    m = re.search(r"(panic: .*|fatal error: .*)", p.stderr)
    if m and "goroutine" in p.stderr and re.search(r"gofer/(?!zzv)", p.stderr):
        ctx.violate(what + ": the code crashed the process: " + m.group(1), {"stderr": p.stderr[-6000:]})
        return True
    raise InfraError("driver failed rc=%d: %s" % (p.returncode, (p.stderr + p.stdout)[-3000:]))


def replay(ctx, name, pkg, graph, cfgs, walks=200, walklen=60, budget=6.0, init=None):
    """Replays TLC's transitions on the unmodified code."""
    stop_if_violated(ctx)
    ini = [i for i, s in graph["init"] if init is None or init(s)]
    inp = {"init": ini, "n": graph["n"], "seed": SEED, "walks": walks, "walklen": walklen, "budget": budget, "cfgs": cfgs,
           "trans": [[f, json.loads(o), alts] for (f, o), alts in graph["trans"].items()]}
    p, recs = run_driver(ctx, "raw", pkg, "replay", inp, timeout=budget + 120, name=name)
    if crashed(ctx, p, name):
        return
    rep = recs[-1]
    reach = len(graph["trans"])
    ctx.transitions += rep["steps"]
    ctx.traces += rep["walks"]
    ctx.part(replay=name, edges=reach, covered=rep["covered"], steps=rep["steps"], walks=rep["walks"], cfgs=len(cfgs))
    if rep.get("sample"):
        ctx.sample({"replayed": name, "ops": rep["sample"]})
    for f in rep["failures"] or []:
        ctx.violate("%s: the code's result is not one the specification allows" % name, f)
    return rep


def algo(ctx, name, module, consts, invariants=(), properties=(), spec="Spec", deadlock=False, expect=None, timeout=800, extra="", constraint=None):
    """Exhaustive check of an algorithm specification. With expect, TLC has to find that violation
    (the algorithm as it was before a repair)."""
    d = setup_dir("alg_" + name, module, consts, None)
    cfg = "SPECIFICATION %s\n" % spec + "".join("INVARIANT %s\n" % i for i in invariants) + "".join("PROPERTY %s\n" % p for p in properties) + \
          "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE") + ("CONSTRAINT %s\n" % constraint if constraint else "") + extra + bind(consts)
    r = tlc(d, "Component", cfg, workers=8, timeout=timeout, heap="8g")
    if expect:
        ok = r.rc != 0 and re.search(r"(Invariant|Action property|property|properties) .*(%s)|%s.* (is|was|were) violated" % (expect, expect), r.out)
        if not ok:
            raise InfraError("%s: TLC does not find the violation of %s it should\n%s" % (name, expect, tail(r.out)))
    elif r.rc != 0 or "Error:" in r.out:
        raise InfraError("algorithm specification %s fails its own check:\n%s" % (module, tail(r.out)))
    ctx.states += r.distinct
    ctx.transitions += r.gen
    ctx.part(algorithm=name, module=module, consts={k: tla_val(v)[:150] for k, v in consts.items()}, states=r.distinct, generated=r.gen, wall=round(r.wall, 1),
             **({"counterexample_found": expect} if expect else {"exhaustive": True, "properties": list(invariants) + list(properties)}))
    shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- trace validation

def trace_of(h):
    ev = [{"e": e["e"], "t": e["t"], "o": e["o"] or [], "r": e["r"] or [], "c": e["c"] // 1000} for e in h["ev"] or []]   # microseconds
    return {"cfg": h.get("cfg") or {"x": "0"}, "ev": ev}


def validate(ctx, name, spec, consts, hists, module="LinTrace", chunk=4000, timeout=600, extra_cfg="", what=None, cls=None, props=(), workers=1):
    """Checks recorded histories against the trace specification. Returns the rejected ones."""
    stop_if_violated(ctx)
    from concurrent.futures import ThreadPoolExecutor
    rejected = []
    total = 0
    n = max(1, min(chunk, -(-len(hists) // 8)))
    if n > 500:                                   # equal parts, a multiple of the workers
        k = -(-len(hists) // n)
        k = -(-k // 8) * 8
        n = -(-len(hists) // k)
    parts = [hists[a:a + n] for a in range(0, len(hists), n)]
    cfg = "INIT Init\nNEXT Next\nINVARIANT Accept\nCHECK_DEADLOCK FALSE\n" + extra_cfg + bind(consts)
    dirs = [setup_dir("val_" + name, spec, consts, module) for _ in parts]

    def one(ix):
        tf = os.path.join(dirs[ix], "traces.json")
        json.dump([trace_of(h) for h in parts[ix]], open(tf, "w"))
        r = tlc(dirs[ix], module, cfg, workers=workers, timeout=timeout, env={"TRACES": tf}, props=tuple(props) + ("-XX:ParallelGCThreads=2",), heap="3g")
        if os.environ.get("VERIF_KEEP") is None:
            shutil.rmtree(dirs[ix], ignore_errors=True)
        return r
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, range(len(parts))))
    for r, part in zip(outs, parts):
        if r.rc != 0 or "Error:" in r.out:
            raise InfraError("trace specification %s/%s failed:\n%s" % (module, spec, tail(r.out)))
        acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', r.out))
        total += r.distinct
        ctx.states += r.distinct
        ctx.transitions += r.gen
        for i, h in enumerate(part):
            if i + 1 not in acc:
                rejected.append(h)
    ctx.traces += len(hists)
    ctx.part(validated=name, histories=len(hists), rejected=len(rejected), states=total)
    if hists:
        ctx.sample({"history": name, "events": ["%s t%s %s -> %s" % (e["e"], e["t"], " ".join(e["o"] or []), " ".join(e["r"] or [])) for e in hists[len(hists) // 2]["ev"]][:24]})
    if rejected:
        rejected.sort(key=lambda h: len(h["ev"]))
        diag = ""
        try:
            diag = diagnose(spec, consts, rejected[0], module, extra_cfg)
        except Exception as ex:  # diagnostics only
            diag = str(ex)
        ctx.violate(what or ("%s: a recorded execution is not a behaviour of the specification" % name),
                    {"history": rejected[0], "rejected": len(rejected), "of": len(hists), "longest_match": diag})
    return rejected


def diagnose(spec, consts, h, module, extra_cfg):
    d = setup_dir("diag", spec, consts, module)
    tf = os.path.join(d, "traces.json")
    json.dump([trace_of(h)], open(tf, "w"))
    cfg = "INIT Init\nNEXT Next\nINVARIANT Deepest\nCHECK_DEADLOCK FALSE\n" + extra_cfg + bind(consts)
    r = tlc(d, module, cfg, workers=1, timeout=120, env={"TRACES": tf})
    best, txt = 0, ""
    flat = re.sub(r"\n\s+", " ", r.out)
    for m in re.finditer(r'<<\s*"AT", 1, (\d+), (.*?)(?=<<\s*"AT"|$)', flat, re.M):
        if int(m.group(1)) >= best:
            best, txt = int(m.group(1)), m.group(2)
    ev = h["ev"]
    nxt = ev[best - 1] if 0 < best <= len(ev) else None
    return {"matched_events": best - 1, "state": txt[:2000], "next_event": nxt}


def explore(ctx, name, pkg, scenarios, timeout=900, env=None):
    """Runs the scenarios under the controlled scheduler; returns the distinct histories."""
    from concurrent.futures import ThreadPoolExecutor
    stop_if_violated(ctx)
    try:
        driver(ctx, "ins", pkg)
    except InfraError as e:
        # code the instrumentation can not follow (an API the scheduler has no stand-in for): the
        # parts of the check that run the code as it is still decide; a check without such parts is an error
        driver(ctx, "raw", pkg if not pkg.startswith("c_") else "drv")
        ctx.skipped.append(name)
        ctx.part(not_explored=name, because=str(e)[-600:])
        log("NOT EXPLORED", name, str(e)[-600:])
        return []
    n = min(8, len(scenarios)) or 1
    groups = [scenarios[i::n] for i in range(n)]

    def one(ix):
        return run_driver(ctx, "ins", pkg, "explore", {"scenarios": groups[ix], "seed": SEED * 101 + ix}, timeout=timeout, env=env, name="%s_%d" % (name, ix))
    with ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(one, range(n)))
    hists, runs, summ = [], 0, []
    byname = {s["name"]: s for s in scenarios}
    for p, recs in outs:
        if p.returncode != 0:
            raise InfraError("explorer failed rc=%d: %s" % (p.returncode, (p.stderr + p.stdout)[-3000:]))
        for r in recs:
            if "summary" in r:
                runs += r["runs"]
                summ.append(r)
            else:
                r["scenario"] = byname[r["name"]]
                hists.append(r)
    ctx.part(explored=name, scenarios=len(scenarios), executions=runs, histories=len(hists),
             preemption_bound_completed={s["summary"]: s["pb"] for s in summ}, maxsteps=max([s["maxsteps"] for s in summ] or [0]))
    ctx.executions = getattr(ctx, "executions", 0) + runs
    if runs == 0:
        raise InfraError("no execution explored for " + name)
    return hists


def walk(ctx, name, pkg, inp, kind="raw", timeout=300, env=None, par=True):
    """Random runs of the code, one after another and then (par) at the same time on objects of their own."""
    stop_if_violated(ctx)
    inp = dict(inp)
    inp.setdefault("seed", SEED)
    p, recs = run_driver(ctx, kind, pkg, "walk", inp, timeout=timeout, env=env, name=name)
    if crashed(ctx, p, name):
        return []
    if par and "script" not in inp and "par" not in inp:
        n = len(inp["cfgs"])
        recs += parallel(ctx, name, pkg, inp["cfgs"], max(3, 40 // n), 25, secs=3.0 / n, maxhist=max(6, 160 // n), env=env)
    return recs


def parallel(ctx, name, pkg, cfgs, runs, n, secs=1.0, maxhist=300, par=16, env=None):
    """Goroutines run sequences at the same time, each on an object of its own; returns the distinct outcomes."""
    return walk(ctx, name + "_par", pkg, {"cfgs": cfgs, "runs": runs, "len": n, "par": par, "secs": secs * (6 if THOROUGH else 1), "maxhist": maxhist}, env=env)


def script(ctx, name, pkg, cfg, ops, kind="raw", timeout=300, env=None):
    """Runs one fixed sequence of operations and records it."""
    return walk(ctx, name, pkg, {"cfgs": [cfg], "runs": 1, "len": len(ops), "script": ops}, kind=kind, timeout=timeout, env=env)


def finish(ctx, level="model_checking"):
    ev = {
        "property": ctx.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": level,
        "coverage": {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
                     "executions_explored": getattr(ctx, "executions", 0), "samples": ctx.samples or ["none"], "parts": ctx.parts},
        "assumptions": ctx.assumptions, "wall_s": round(time.time() - T0, 2), "violations": 1 if ctx.violation else 0,
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, ctx.pid + ".json"), "w"), indent=1)
    if ctx.skipped and not ctx.violation and not ctx.traces:
        print("ERROR property=%s the code could not be instrumented" % ctx.pid)
        return 3
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, k))
    if ctx.violation:
        print("VIOLATION property=%s replay=%s" % (ctx.pid, ctx.violation))
        return 1
    print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (ctx.pid, ctx.states, ctx.transitions, ctx.traces, time.time() - T0))
    return 0
