"""Shared machinery of the checks: run TLC, replay cases on the real code, validate traces.

Every check is a module checks/pNN.py with
    SPEC   = list of (module, cfg[, opts]) model-checking runs (exhaustive, small constants)
    TRACE  = trace module that judges recorded events
    cases(ctx, model_cases) -> iterable of input dicts {"op":..., ...}
    execute(inp) -> output dict (JSON, ints)      runs the real code
The event written for TLC is {"op","in","out"}; TLC prints FAIL|line|clause for each
clause of the specification the event breaks.
"""
import json, os, re, signal, subprocess, sys, time, shutil, tempfile, random, traceback, hashlib
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECDIR = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

NAN, PINF, NINF, BIG = 1050000000, 1060000000, -1060000000, 1000000000


def fx(x, s):
    """float -> scaled int with sentinels (TLC integers are 32 bit)."""
    import math
    try:
        x = float(x)
    except TypeError:
        return NAN
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return PINF if x > 0 else NINF
    v = x * s
    if v > BIG: return BIG
    if v < -BIG: return -BIG
    return int(round(v))


def fxa(a, s):
    return [fx(v, s) for v in a]


def cxa(a, s):
    """complex 1-D array -> list of [re, im]"""
    return [[fx(v.real, s), fx(v.imag, s)] for v in a]


# clauses of a trace module that a property owns are listed in its OWN; these are everybody's
ALWAYS = {"NoException", "Shape", "Evaluable", "UnknownEvent"}


class MachineryError(Exception):
    pass


def brief(out):
    """the informative part of TLC's output"""
    keep = [l for l in out.splitlines() if not re.match(r"(Parsing file|Semantic proc|Linting|Warning: Please|\(Use the|Running|TLC2)", l)]
    for i, l in enumerate(keep):
        if "rror" in l:
            return "\n".join(keep[max(0, i - 1):i + 25])[:2500]
    return "\n".join(keep)[-1500:]


class TlcResult:
    pass


def tlc(module, cfg, workdir, env=None, workers=1, timeout=800, heap="3g", extra=(), jopts=()):
    """Run TLC; returns TlcResult with out, states, distinct, status."""
    meta = tempfile.mkdtemp(prefix="meta_", dir=workdir)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", *jopts,
           "-cp", TLA, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPECDIR, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise MachineryError("TLC timeout on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TlcResult()
    res.out = r.stdout.decode("utf-8", "replace")
    res.rc = r.returncode
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", res.out)
    res.states, res.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return res


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random(seed * 1000003 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % pid, dir="/tmp")
        self.states = self.transitions = 0
        self.mc_runs = []
        self.notes = {}
        self.t0 = time.time()


def run_mc(ctx, module, cfg, workers=4, timeout=800, heap="4g", extra=()):
    """Exhaustive model checking of the design. A failure here is a broken specification."""
    casefile = os.path.join(ctx.work, "cases_%s.ndjson" % cfg)
    r = tlc(module + ".tla", cfg, ctx.work, env={"CASES": casefile}, workers=workers, timeout=timeout,
            heap=heap, extra=extra)
    if r.rc != 0 or "No error has been found" not in r.out:
        raise MachineryError("model checking %s/%s failed:\n%s" % (module, cfg, brief(r.out)))
    ctx.states += r.distinct
    ctx.transitions += r.states
    cases = []
    if os.path.exists(casefile):
        with open(casefile) as f:
            for l in f:
                l = l.strip()
                if l:
                    c = json.loads(l)
                    cases.append(json.loads(c) if isinstance(c, str) else c)
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    ctx.mc_runs.append({"module": module, "cfg": cfg, "distinct_states": r.distinct,
                        "states_generated": r.states, "behaviours_emitted": len(cases)})
    return cases


FAILRE = re.compile(r'FAIL\|(\d+)\|([^"|]*)(?:\|([^"]*))?')


def _validate_chunk(args):
    module, cfg, path, work, n, timeout = args
    try:
        r = tlc(module + ".tla", cfg, work, env={"TRACE": path}, workers=1, timeout=timeout, heap="2g",
                jopts=("-XX:+UseSerialGC", "-XX:-UseParallelGC", "-XX:TieredStopAtLevel=4"))
    except MachineryError as e:
        return dict(err=str(e), fails=[], states=0, distinct=0, ok=False, out="")
    fails = sorted(set((int(a), b, c) for a, b, c in FAILRE.findall(r.out)))
    ok = r.rc == 0 and "No error has been found" in r.out
    at = re.findall(r"AT\|(\d+)", r.out)
    return dict(err=None, fails=fails, states=r.states, distinct=r.distinct, ok=ok,
                out=r.out if not ok else "", at=None)


def validate(ctx, module, events, cfg=None, nchunk=8, timeout=700):
    """Validate events with a trace specification. Returns list of (event index, clause, detail)."""
    cfg = cfg or module + ".cfg"
    if not events:
        return []
    # round-robin split keeps chunks balanced; stateful traces are single events with steps inside
    nchunk = max(1, min(nchunk, (len(events) + 19) // 20))
    idx = [list(range(k, len(events), nchunk)) for k in range(nchunk)]
    jobs = []
    for k, ix in enumerate(idx):
        p = os.path.join(ctx.work, "trace_%s_%d.ndjson" % (module, k))
        with open(p, "w") as f:
            for i in ix:
                f.write(json.dumps(events[i], separators=(",", ":")) + "\n")
        jobs.append((module, cfg, p, ctx.work, len(ix), timeout))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(_validate_chunk, jobs))
    bad = []
    for k, r in enumerate(res):
        if r["err"]:
            raise MachineryError(r["err"])
        ctx.states += r["distinct"]
        ctx.transitions += r["states"]
        for line, clause, det in r["fails"]:
            bad.append((idx[k][line - 1], clause, det))
        if not r["ok"]:
            # the trace specification could not be evaluated to the end: find the event
            ls = re.findall(r"\bl = (\d+)", r["out"])   # position in the last state of TLC's error trace
            done = int(ls[-1]) if ls else 0
            if ("Parsing or semantic analysis failed" in r["out"] or "OutOfMemory" in r["out"]
                    or not (1 <= done <= len(idx[k])) or "Error:" not in r["out"]):
                raise MachineryError("trace validation %s failed:\n%s" % (module, brief(r["out"])))
            bad.append((idx[k][done - 1], "Evaluable", r["out"][-1500:]))
    bad.sort()
    return bad


class CaseTimeout(Exception):
    pass


def _alarm(sig, frm):
    raise CaseTimeout()


_EXEC = None


def _init_worker(limit):
    os.environ.setdefault("MPLBACKEND", "Agg")
    signal.signal(signal.SIGALRM, _alarm)
    # the code under test prints a lot
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, "w")
    import gc, warnings
    gc.freeze()
    warnings.simplefilter("ignore")
    globals()["_LIMIT"] = limit
    import gc
    gc.collect()
    gc.freeze()   # the code under test calls gc.collect() a lot


def _run_case(inp):
    signal.alarm(_LIMIT)
    try:
        out = _EXEC(inp)
        out["exc"] = ""
    except CaseTimeout:
        out = {"exc": "Timeout"}
    except SystemExit as e:
        out = {"exc": "SystemExit"}
    except MemoryError:
        out = {"exc": "MemoryError"}
    except Exception as e:
        out = {"exc": type(e).__name__, "trace": "".join(traceback.format_exc()[-1200:])}
    finally:
        signal.alarm(0)
    return out


def replay_cases(inputs, execute, procs=8, limit=60):
    """Run the real code on every input, in parallel worker processes."""
    global _EXEC
    _EXEC = execute
    inputs = list(inputs)
    if not inputs:
        return []
    ctxm = mp.get_context("fork")
    procs = min(procs, max(1, len(inputs) // 4))
    from concurrent.futures import ProcessPoolExecutor
    from concurrent.futures.process import BrokenProcessPool
    try:
        with ProcessPoolExecutor(procs, mp_context=ctxm, initializer=_init_worker, initargs=(limit,)) as ex:
            outs = list(ex.map(_run_case, inputs, chunksize=max(1, len(inputs) // (procs * 8))))
    except BrokenProcessPool:
        outs = []
        for i in inputs:   # one process per case: the code under test kills its process
            try:
                with ProcessPoolExecutor(1, mp_context=ctxm, initializer=_init_worker, initargs=(limit,)) as ex:
                    outs.append(list(ex.map(_run_case, [i]))[0])
            except BrokenProcessPool:
                outs.append({"exc": "ProcessDied"})
    return outs


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def match_known(pid, ev, clause, known):
    for k in known:
        if k.get("status") != "open" or k["property"] != pid:
            continue
        if clause in k["clauses"] and ev.get("in", {}).get("kf") == k["id"]:
            return k
    return None


def main(pid, mod, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 0
    while i < len(argv):
        if argv[i] in ("quick", "thorough"):
            tier = argv[i]
        elif argv[i] == "--replay":
            replay = argv[i + 1]; i += 1
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed)
    try:
        rc = _main(pid, mod, ctx, replay)
    except MachineryError as e:
        print("MACHINERY-ERROR property=%s %s" % (pid, e))
        rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.work, ignore_errors=True)
        else:
            print("work:", ctx.work)
    sys.exit(rc)


def strip(ev):
    """What TLC sees: without bulky debug fields."""
    e = {"op": ev["in"]["op"], "in": {k: v for k, v in ev["in"].items() if k not in ("op", "py")},
         "out": {k: v for k, v in ev["out"].items() if k != "trace"}}
    return e


def _main(pid, mod, ctx, replay):
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    if replay:
        saved = json.load(open(replay))
        inputs = [e["in"] for e in saved["events"]]
    else:
        model_cases = {}
        for run in mod.SPEC:
            module, cfg = run[0], run[1]
            opts = run[2] if len(run) > 2 else {}
            if opts.get("tier", ctx.tier) != ctx.tier:
                continue
            o = {k: v for k, v in opts.items() if k != "tier"}
            model_cases[cfg] = run_mc(ctx, module, cfg, **o)
        t1 = time.time()
        inputs = list(mod.cases(ctx, model_cases))
    t1 = time.time()
    outs = replay_cases(inputs, mod.execute, limit=getattr(mod, "CASE_LIMIT", 60),
                        procs=getattr(mod, "PROCS", 8))
    t2 = time.time()
    events = [{"in": i, "out": o} for i, o in zip(inputs, outs)]
    if hasattr(mod, "relate"):     # cross-event facts (e.g. equality of two runs), added to outputs
        events = mod.relate(ctx, events)
    trace_of = getattr(mod, "trace_module", lambda ev: mod.TRACE)
    groups = {}
    for n, e in enumerate(events):
        groups.setdefault(trace_of(e), []).append(n)
    bad = []
    for tm, ix in sorted(groups.items()):
        for k, clause, det in validate(ctx, tm, [strip(events[n]) for n in ix]):
            if not hasattr(mod, "OWN") or clause in mod.OWN or clause in ALWAYS:
                bad.append((ix[k], clause, det))
    t3 = time.time()
    known = load_known()
    news, seen = [], {}
    for n, clause, det in bad:
        k = match_known(pid, events[n], clause, known)
        if k:
            seen.setdefault(k["id"], []).append(n)
        else:
            news.append((n, clause, det))
    for kid in sorted(seen):
        k = [x for x in known if x["id"] == kid][0]
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ops = {}
    for e in events:
        ops[e["in"]["op"]] = ops.get(e["in"]["op"], 0) + 1
    ok_events = len(events) - len(set(n for n, _, _ in bad))
    samples = [strip(events[n]) for n in sorted(set([0, len(events) // 2, len(events) - 1]))] if events else []

    def short(x, d=0):
        if isinstance(x, dict):
            return {k: short(v, d + 1) for k, v in x.items()}
        if isinstance(x, list) and len(x) > 12:
            return [short(v, d + 1) for v in x[:12]] + ["...%d more" % (len(x) - 12)]
        if isinstance(x, list):
            return [short(v, d + 1) for v in x]
        return x
    ev = {"property": pid, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": ok_events,
                       "samples": [short(s) for s in samples],
                       "model_checking_runs": ctx.mc_runs,
                       "operations": ops,
                       "impl_executions": len(events),
                       "rule": getattr(mod, "RULE", "model-emitted behaviours plus seeded random/adversarial inputs, "
                                                     "each executed on /repo and judged clause by clause by TLC"),
                       "seconds": {"mc": round(t1 - ctx.t0, 1), "impl": round(t2 - t1, 1), "tlc_traces": round(t3 - t2, 1)},
                       **ctx.notes},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(set(n for n, _, _ in news))}
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if news:
        rp = os.path.join(evdir, "replay_%s.json" % pid)
        first = []
        for n, c, d in news:
            if n not in first:
                first.append(n)
        with open(rp, "w") as f:
            json.dump({"property": pid, "how": "python checks/run.py %s --replay %s" % (pid, rp),
                       "failures": [{"event": first.index(n), "clause": c, "detail": d} for n, c, d in news if n in first[:5]],
                       "events": [events[n] for n in first[:5]]}, f, indent=1)
        clauses = {}
        for n, c, d in news:
            clauses.setdefault(c, []).append(n)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        for c, ns in sorted(clauses.items()):
            e = events[ns[0]]
            print("  clause %s broken by %d execution(s); first: op=%s exc=%s" % (c, len(ns), e["in"]["op"], e["out"].get("exc")))
            if os.environ.get("VERIF_DEBUG"):
                print("   ", json.dumps(short(e))[:3000])
        return 1
    print("OK property=%s tier=%s states=%d transitions=%d executions=%d wall=%.1fs (mc %.1f impl %.1f tlc %.1f)"
          % (pid, ctx.tier, ctx.states, ctx.transitions, len(events), time.time() - ctx.t0, t1 - ctx.t0, t2 - t1, t3 - t2))
    return 0
