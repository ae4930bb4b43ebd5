"""Common machinery: running TLC, judging traces, reporting, evidence."""
import json, logging, os, re, resource, signal, subprocess, sys, tempfile, shutil, threading, time

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
DEFS = os.path.join(SPEC, "data", "defs.json")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(REPO, "src"))
os.environ["TZ"] = "NST3:30NDT,M3.2.0,M11.1.0"      # local time is not UTC: nothing may depend on it
time.tzset()
logging.lastResort = None      # the library's log records are observed, not printed


def thorough():
    return TIER == "thorough"


class MachineryError(Exception):
    """The check itself failed (exit 2, never a verdict)."""


_TMP = None


def tmpdir():
    global _TMP
    if _TMP is None:
        _TMP = tempfile.mkdtemp(prefix="nmeaverif_")
    return _TMP


def cleanup():
    if _TMP:
        shutil.rmtree(_TMP, ignore_errors=True)


# ------------------------------------------------------------------ TLC
class TlcRun:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[1]), int(m[2])) if m else (0, 0)
        self.lines = [_unq(x) for x in re.findall(r'^"@@(.*)"$', out, re.M)]
        self.ok = "Model checking completed. No error has been found." in out
        inv = re.search(r"Error: Invariant (\S+) is violated|Error: Action property (\S+) is violated", out)
        self.violated = (inv[1] or inv[2]) if inv else None


def _unq(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


def tlc(module, cfg=None, env=None, workers=8, heap="6g", timeout=3000, args=(), must_ok=True):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg (default <module>.cfg)."""
    meta = tempfile.mkdtemp(prefix="tlc_", dir=tmpdir())
    e = dict(os.environ, NMEA_DEFS=DEFS, **(env or {}))
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-deadlock", "-nowarning", "-noGenerateSpecTE", "-metadir", meta, "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
    t = time.time()
    p = None
    for limit in ([timeout] if thorough() else [240, 420]):      # a stalled JVM is started afresh once
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
            break
        except subprocess.TimeoutExpired:
            print(f"TLC took more than {limit} s on {module}", file=sys.stderr)
    shutil.rmtree(meta, ignore_errors=True)
    if p is None:
        raise MachineryError(f"TLC timed out on {module}")
    r = TlcRun(p.stdout.decode("utf-8", "replace"), p.returncode, time.time() - t)
    if must_ok and not r.ok:
        raise MachineryError(f"TLC failed on {module} ({cfg}):\n" + r.out[-4000:])
    return r


def plain(v):
    """observations as TLC can read them: what it has no value for becomes a text, which equals nothing it is compared with"""
    if isinstance(v, dict):
        return {k if isinstance(k, str) else repr(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (str, bool)) or isinstance(v, int) and -2**31 < v < 2**31:
        return v
    return f"<{type(v).__name__} {v!r}>"[:200]


def judge(events, uds=(), workers=8, timeout=3000):
    """Judge events with spec/Judge.tla.  Returns (list of clause sets, list of classes, TlcRun)."""
    if not events:
        raise MachineryError("no events to judge")
    events = plain(events)
    verd, cls = [None] * len(events), [""] * len(events)
    todo = list(range(len(events)))
    for attempt in range(8):
        path = os.path.join(tmpdir(), f"trace_{len(todo)}_{time.time_ns()}.json")
        with open(path, "w", encoding="ascii") as f:
            json.dump({"uds": list(uds) or [{"ZZZ": []}], "ev": [events[i] for i in todo]}, f, separators=(",", ":"))
        r = tlc("Judge", env={"TRACE": path}, workers=workers, timeout=timeout, must_ok=False)
        os.unlink(path)
        for ln in r.lines:
            n, c, v = ln.split("|", 2)
            verd[todo[int(n) - 1]] = set(re.findall(r'"([^"]*)"', v))
            cls[todo[int(n) - 1]] = c
        if r.ok:
            break
        # an observation the specification cannot even interpret: it conforms to nothing
        m = re.search(r"The behavior up to this point is:.*?^(?:/\\ )?l = (\d+)", r.out, re.S | re.M)
        if not m:
            raise MachineryError("TLC failed on Judge:\n" + r.out[-3000:])
        i = todo[int(m[1]) - 1]
        verd[i], cls[i] = {"uninterpretable"}, "uninterpretable"
        todo = [i for i in todo if verd[i] is None]
        if not todo:
            break
    else:                # many of them: enough to report
        for i in todo:
            verd[i] = set()
    if any(v is None for v in verd):
        raise MachineryError("missing verdicts: %d of %d" % (sum(v is None for v in verd), len(verd)))
    return verd, cls, r


# ------------------------------------------------------------------ guarded calls
class Hang(BaseException):
    """a call that does not end"""
    seen = 0
    since = None        # when the call now running began


class Enough(BaseException):
    """so many calls did not end that there is no point in going on"""


def _alarm(*_):
    raise Hang()


# documented parameters of the public functions, in order: (name,) or (name, default)
FORMS, _forms = {}, [0]


def vary(fn, a, k):
    """The same call in another form: defaults left out, all by position, all by keyword."""
    try:
        form = FORMS.get(fn)
    except TypeError:
        form = None
    if form is None or len(a) > len(form):
        return a, k
    _forms[0] += 1
    return reform(form, _forms[0] % 4, a, k)


def reform(form, how, a, k):
    if how == 0:
        return a, k
    names = [p[0] for p in form]
    given = dict(zip(names, a))
    if set(given) & set(k):
        return a, k
    rest = {n: v for n, v in k.items() if n not in names}
    given.update((n, v) for n, v in k.items() if n in names)
    if how == 1:        # without what is the default anyway
        given = {n: v for n, v in given.items() if not (len(form[names.index(n)]) == 2
                 and type(form[names.index(n)][1]) is type(v) and form[names.index(n)][1] == v)}
    if how == 3:        # by keyword
        return [], {**given, **rest}
    pos = []
    for p in form:      # by position as far as possible
        if not given or (how == 1 and p[0] not in given):
            break
        if p[0] in given:
            pos.append(given.pop(p[0]))
        elif len(p) == 2:
            pos.append(p[1])
        else:
            break
    return pos, {**given, **rest}


def guard(fn, *a, limit=10.0, **k):
    """Call fn; return ("ok", value) or (kind, exception).  A call that does not end is kind 'hang'."""
    signal.signal(signal.SIGALRM, _alarm)
    if Hang.seen >= 150:
        raise Enough()
    # once calls are known not to end, less patience with further ones
    limit = limit if Hang.seen < 3 else min(limit, 1.0) if Hang.seen < 20 else min(limit, .2)
    signal.setitimer(signal.ITIMER_REAL, limit, 1.0)
    Hang.since = time.time()
    try:
        a, k = vary(fn, a, k)
        return "ok", fn(*a, **k)
    except Hang:
        Hang.seen += 1
        return "hang", None
    except RecursionError as err:
        return "exc:RecursionError", err
    except MemoryError as err:
        Hang.seen += 1
        return "exc:MemoryError", err
    except Exception as err:  # noqa: BLE001
        n = type(err).__name__
        lib = type(err).__module__.startswith("pynmeagps")
        return (n if lib else "exc:" + n), err
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        Hang.since = None


def watchdog(seconds):
    """A check that has found violations reports them, even if it cannot end in time."""
    def late():
        if Check.current and Hang.since and time.time() - Hang.since > 120:      # it even outlives Hang
            Check.current.violation(["hang"], {"what": "a call that does not end", "seconds": round(time.time() - Hang.since)})
        if Check.current and Check.current.viol:
            rc = finish(Check.current, "model_checking")
            sys.stdout.flush()
            cleanup()
            os._exit(rc)
    t = threading.Timer(seconds, late)
    t.daemon = True
    t.start()


def limit_memory(gb=6):
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))


def later(prop):
    """Events of a process whose clock is set by hand (later.py)."""
    out = os.path.join(tmpdir(), "later.json")
    try:
        p = subprocess.run([sys.executable, os.path.join(ROOT, "harness", "later.py"), prop, out], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300 if not thorough() else 1500)
    except subprocess.TimeoutExpired:
        raise MachineryError("later.py did not end") from None
    if p.returncode:
        raise MachineryError("later.py: " + p.stdout.decode("utf-8", "replace")[-800:])
    return json.load(open(out))


# ------------------------------------------------------------------ results
class Check:
    """Collects what a property's check explored and what it found."""

    current = None

    def __init__(self, prop):
        Check.current = self
        self.prop, self.t0 = prop, time.time()
        self.viol, self.notes = [], {}
        self.states = self.transitions = self.traces = 0
        self.samples, self.classes = [], {}
        self.assumptions = []
        self.exhaustive = {}

    def tlc(self, r, label=""):
        self.states += r.distinct
        self.transitions += r.generated
        if label:
            self.notes.setdefault("tlc_runs", {})[label] = {"distinct": r.distinct, "generated": r.generated, "wall_s": round(r.wall, 1)}
        return r

    def model(self, module, cfg=None, **k):
        """Exhaustive model run; an invariant violation here is a fault of the specification itself."""
        r = self.tlc(tlc(module, cfg, **k), cfg or module)
        return r

    def events(self, events, uds=(), only=None, label="judge", known=()):
        """Judge events; record violations whose clause passes only()."""
        verd, cls, r = judge(events, uds)
        self.tlc(r, label)
        self.traces += len(events)
        for e, v, c in zip(events, verd, cls):
            self.classes[c] = self.classes.get(c, 0) + 1
            bad = sorted(x for x in v if x == "uninterpretable" or only is None or only(x, e))
            if bad:
                self.violation(bad, e, uds)
        if len(self.samples) < 6:
            self.samples += [brief(e) for e in events[:: max(1, len(events) // 3)][:3]]
        return verd

    def violation(self, clauses, detail, uds=()):
        self.viol.append({"clauses": list(clauses), "detail": detail, "uds": list(uds) if isinstance(detail, dict) and detail.get("ud") else []})

    def sample(self, *s):
        if len(self.samples) < 12:
            self.samples += [brief(x) for x in s]


def brief(e):
    s = json.dumps(e, default=str)
    if isinstance(e, dict) and "msg" in e and isinstance(e["msg"], list):
        return {"op": e.get("op"), "msg": bytes(e["msg"]).decode("latin-1"), "mode": e.get("mode"), "val": e.get("val"), "kind": e.get("res", {}).get("kind")}
    return s[:600] if len(s) > 600 else e


def known_findings():
    """Known findings: lines 'known: property=<id> key=<json> -- text' in known_findings.txt."""
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) match=(\S+) -- (.*)", ln)
            if m:
                out.append((m[1], m[2], m[3].strip()))
    return out


def finish(chk, level, technique=None, extra=None):
    """Write evidence, print verdict lines, return exit code."""
    wall = time.time() - chk.t0
    cov = {"states": chk.states, "transitions": chk.transitions, "traces_validated_against_impl": chk.traces,
           "samples": chk.samples[:12] or ["(none)"], "classes": dict(sorted(chk.classes.items(), key=lambda x: -x[1])[:60]), **chk.notes, **(extra or {})}
    if chk.exhaustive:
        cov["exhaustive_models"] = chk.exhaustive
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    unknown = []
    for v in chk.viol:
        hit = None
        for p, key, text in known_findings():
            if p == chk.prop and key in json.dumps(v["detail"], default=str) and hit is None:
                hit = text
        if hit:
            print(f"KNOWN-FINDING: property={chk.prop} {hit}")
        else:
            unknown.append(v)
    json.dump({"property": chk.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
               "assumptions": chk.assumptions, "wall_s": round(wall, 2), "violations": len(unknown)},
              open(os.path.join(ROOT, "evidence", chk.prop + ".json"), "w"), indent=1, default=str)
    print(f"{chk.prop}: {chk.states} states, {chk.traces} implementation traces, {len(unknown)} violations, {wall:.1f}s")
    if unknown:
        rp = os.path.join(ROOT, "evidence", f"{chk.prop}.replay.json")
        json.dump(unknown[:50], open(rp, "w"), indent=1, default=str)
        for v in unknown[:5]:
            print("  clauses:", v["clauses"], "case:", json.dumps(brief(v["detail"]), default=str)[:700])
        print(f"VIOLATION property={chk.prop} replay={rp}")
        return 1
    return 0
