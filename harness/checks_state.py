"""C21, C26: messages are values; calls do not influence one another."""
import copy, io, json, os, pickle, random, subprocess, sys, threading, zlib

import core, gen, proj, runs
from core import Check, finish, guard
from checks_msg import N, S, catalog, lib, mc, same
import checks_stream as cs
from pynmeagps import NMEAMessage, NMEAReader
import pynmeagps


# ------------------------------------------------------------------ C21
COPY = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda m: pickle.loads(pickle.dumps(m, random.choice([2, 4, pickle.HIGHEST_PROTOCOL])))}


class Life:
    """one message and the objects of its creator"""

    def __init__(self, origin, m, rng):
        self.origin, self.rng = origin, rng
        nt, tx = gen.fields_for(m, rng, 2)
        self.src = self.tab = self.got = None
        self.elders = []            # messages this one is a copy of
        raw = S(gen.content(m, tx))
        if origin == "parse":
            self.m = NMEAReader.parse(raw, msgmode=m.mode)
        elif origin == "reader":
            self.m = NMEAReader(io.BytesIO(raw), msgmode=m.mode, quitonerror=2).read()[1]
        elif origin == "fields":
            self.src = list(tx)
            self.m = NMEAMessage(m.talker, m.id, m.mode, payload=self.src)
        elif origin == "keywords":
            nt, kw = gen.kwargs_for(m, rng, 2, .7)
            self.m = NMEAMessage(m.talker, m.id, m.mode, **gen.variant_kw(m, kw, nt, rng))
        elif origin == "usertable":
            self.tab = {"ZZL": lib(m.d), "ZZ2": {"a": "ST"}}
            self.m = NMEAReader.parse(S(",".join(["GPZZL"] + tx)), userdefined=self.tab)
        else:
            self.m = NMEAMessage("GN", "QQQ", m.mode, payload=tx)
        self.before = self.snap()

    def snap(self, m=None):
        m = self.m if m is None else m
        return proj.msg(m), repr(m), [(n, getattr(m, n)) for n in dir(m) if n[0] != "_" and n not in ("serialize", "nomval", "str2val", "val2str")]

    def attr(self):
        a = [x["n"] for x in self.before[0]["at"]]
        return self.rng.choice(a) if a else "talker"

    def do(self, op):
        m, v = self.m, self.rng.choice(["x", 1, None, [], ""])

        def iadd():
            m.payload += ["x"]
        f = {"set_attr": lambda: setattr(m, self.attr(), v), "set_new": lambda: setattr(m, self.rng.choice(["foo", "field_99", "lat_99"]), v),
             "set_private": lambda: setattr(m, self.rng.choice(["_payload", "_checksum", "_talker", "_msgID", "_mode", "_foo"]), v),
             "set_property": lambda: setattr(m, self.rng.choice(["payload", "identity", "talker", "msgID", "msgmode", "checksum"]), v), "iadd_payload": iadd,
             "set_flag": lambda: setattr(m, "_immutable", False), "del_attr": lambda: delattr(m, self.attr()),
             "del_private": lambda: delattr(m, self.rng.choice(["_payload", "_checksum", "_immutable", "_talker"])), "del_missing": lambda: delattr(m, "nosuch"),
             "serialize": m.serialize, "str": lambda: str(m), "repr": lambda: repr(m), "identity": lambda: m.identity}
        if op in f:
            return guard(f[op])[0]
        if op in COPY:
            kind, c = guard(COPY[op], m)
            if kind == "ok" and type(c) is not type(m):
                return "copy:" + type(c).__name__
            if kind == "ok":
                self.elders.append(m)
                self.m = c
            return kind
        if op == "payload":
            kind, self.got = guard(lambda: m.payload)
            return kind
        x = self.got if op.startswith("got") else self.src if op.startswith("src") else self.tab
        e = op.split("_")[1]

        def edit():
            if isinstance(x, list):
                if e == "append":
                    x.append("zzz")
                elif e == "clear":
                    x.clear()
                elif x:
                    x[self.rng.randrange(len(x))] = "changed"
            elif e == "clear":
                x.clear()
            else:
                for t in x.values():
                    t.clear()
                    t["other"] = "IN"
        if op.startswith("got") and not isinstance(x, list):
            return "ok"          # something that cannot be edited was handed out
        return guard(edit)[0]


def c21():
    chk, rng = Check("C21"), random.Random(core.SEED)
    r = mc(chk, "MCLifecycle", {"copies": True, "copying": False, "depth": N(3, 4)}, "MCLifecycle")
    bad = mc_bad(chk)
    chk.notes["specification_that_aliases_is_rejected"] = bad
    bs = [json.loads(x) for x in r.lines]
    if len(bs) > 60000:
        bs = rng.sample(bs, 60000)
    chk.exhaustive["MCLifecycle"] = f"every history of {N(3, 4)} operations out of 22 on messages of six origins: {r.distinct} states"
    cat = [m for m in catalog() if not m.fixed]
    flat = [m for m in cat if not any(el["k"] == "g" and el["c"] == "ind" for el in m.d)]
    for k, b in enumerate(bs):
        m = rng.choice(flat if b["o"] == "usertable" else cat)
        history(chk, b["o"], m, b["h"], b["s"], rng, k)
    chk.sample(*bs[:: max(1, len(bs) // 3)][:3])
    # long histories, every message
    ops = sorted({o for b in bs for o in b["h"]})
    deny = {o: s for b in bs for o, s in zip(b["h"], b["s"])}
    for k in range(N(1, 10)):
        for m in cat:
            o = rng.choice(["parse", "reader", "fields", "keywords", "built"])
            h = [x for x in (rng.choice(ops) for _ in range(25)) if (x[:3] != "tab") and (x[:3] != "src" or o == "fields")]
            if "payload" in h:
                i = h.index("payload")
                h = [x for x in h[:i] if x[:3] != "got"] + h[i:]
            else:
                h = [x for x in h if x[:3] != "got"]
            history(chk, o, m, h, [deny[x] for x in h], rng, k)
    return finish(chk, "model_checking")


def mc_bad(chk, copying=False):
    path = os.path.join(core.tmpdir(), "bad.json")
    json.dump({"copies": False, "copying": copying, "depth": 2}, open(path, "w"))
    return core.tlc("MCLifecycle", "MCLifecycleBad", env={"MC": path}, must_ok=False).violated == "Unchanged"


def history(chk, origin, m, h, want, rng, k):
    kind, life = guard(Life, origin, m, rng)
    chk.traces += 1
    if kind != "ok":
        if kind in ("NMEATypeError", "NMEAMessageError", "NMEAParseError"):
            chk.notes["not_created"] = chk.notes.get("not_created", 0) + 1
        else:
            chk.violation(["life:create:" + kind], {"origin": origin, "message": repr(m)})
        return
    if life.m is None:
        return
    for i, (op, w) in enumerate(zip(h, want)):
        got = life.do(op)
        clause = ""
        if got != w:
            clause = f"life:{op}:{got}"
        else:
            for x in [None] + life.elders:
                kind, now = guard(life.snap, x)
                if kind != "ok" or now != life.before:
                    clause = "life:changed by " + op
        if clause:
            chk.violation([clause], {"origin": origin, "message": repr(m), "history": h[:i + 1], "before": life.before[1], "after": guard(repr, life.m)[1]})
            return


# ------------------------------------------------------------------ C36
def c36():
    chk, rng = Check("C36"), random.Random(core.SEED)
    random.seed(core.SEED)
    r = mc(chk, "MCLifecycle", {"copies": True, "copying": True, "depth": 3}, "MCLifecycle")
    chk.notes["specification_that_aliases_is_rejected"] = mc_bad(chk, True)
    bs = [b for b in map(json.loads, r.lines) if any(o in COPY for o in b["h"])]
    chk.exhaustive["MCLifecycle"] = f"every history of 3 operations out of 25 with a copy among them, on messages of six origins: {len(bs)}"
    cat = catalog()
    bare = [m for m in cat if not m.fixed]
    flat = [m for m in bare if not any(el["k"] == "g" and el["c"] == "ind" for el in m.d)]
    for k, b in enumerate(rng.sample(bs, min(len(bs), N(15000, 10 ** 6)))):
        history(chk, b["o"], rng.choice(flat if b["o"] == "usertable" else bare), b["h"], b["s"], rng, k)
    # every message, through all ways of copying one after the other, and into another process
    lives = []
    for rep in range(N(1, 8)):
        for k, m in enumerate(cat):
            o = rng.choice(["parse", "reader", "fields", "keywords", "built"])
            h = [rng.choice(list(COPY)) for _ in range(3)]
            history(chk, o, m, h, ["ok"] * 3, rng, k)
            kind, life = guard(Life, o, m, rng)
            if kind == "ok" and life.m is not None:
                lives.append((life, *guard(pickle.dumps, life.m)))
    d = core.tmpdir()
    a, b = os.path.join(d, "carry.pickle"), os.path.join(d, "carry.json")
    pickle.dump([x for _, kind, x in lives if kind == "ok"], open(a, "wb"))
    try:
        p = subprocess.run([sys.executable, os.path.join(core.ROOT, "harness", "carry.py"), a, b], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    except subprocess.TimeoutExpired:
        raise core.MachineryError("carry.py did not end") from None
    if p.returncode:
        raise core.MachineryError("carry.py: " + p.stdout.decode("utf-8", "replace")[-800:])
    there = iter(json.load(open(b)))
    ev = []
    for life, kind, _ in lives:
        got = next(there) if kind == "ok" else [kind, None]
        want = ["ok", json.loads(json.dumps([life.before[0], life.before[1], "NMEAMessageError", "NMEAMessageError"]))]
        ev.append(same(got, want, "message carried to another process", message=life.before[1]))
    chk.events(ev, label="carried")
    return finish(chk, "model_checking")


# ------------------------------------------------------------------ C26
UD1 = {"ZZ1": {"n": "IN", "grp": ("n", {"x": "ST"})}, "GLL": {"hijack": "ST"}, "QQQ": {"a": "ST"}}
UD2 = {"ZZ1": {"other": "ST", "b": "ST"}, "QQQ": {"q": "DE"}}


def calls(rng, n):
    """independent calls: (description, function returning a projected result)"""
    out = []
    cat = catalog()
    tabs = [None, UD1, UD2]

    def p(raw, mode, val, t):
        return (f"parse {raw[:60]!r} mode {mode} val {val} table {t}", lambda: proj.result(NMEAReader.parse, raw, msgmode=mode, validate=val, userdefined=tabs[t])[0])

    def c(tk, mid, mode, pl, t):
        return (f"new {tk}{mid} {pl[:4]} mode {mode} table {t}", lambda: proj.result(NMEAMessage, tk, mid, mode, payload=pl, userdefined=tabs[t])[0])

    def b(tk, mid, mode, kw, hp):
        return (f"build {tk}{mid} {kw} mode {mode} hp {hp}", lambda: proj.result(NMEAMessage, tk, mid, mode, hpnmeamode=hp, **kw)[0])

    def r(d, o, t):
        return (f"read {d[:60]!r} {o} table {t}", lambda: runs.file_run(d, o, tabs[t], al=False)["items"])
    fixed = [p(S("GNGLL,5327.04319,S,00214.41396,E,223232.00,A,A"), 0, 1, 0), p(S("GNGLL,5327.04319,N,00214.41396,W,223232.00,A,A"), 0, 1, 1), p(S("GPZZ1,2,a,b"), 0, 3, 1), p(S("GPZZ1,2,a,b"), 0, 1, 2),
             p(S("GPZZ1,2,a,b"), 0, 1, 0), p(S("GPQQQ,1"), 0, 1, 0), p(S("GPQQQ,1"), 0, 1, 1), p(S("GPQQQ,1"), 0, 3, 2), p(S("GPQQQ,x"), 0, 1, 2), p(S("GNGSV,3,1,12,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,1"), 0, 1, 0),
             p(S("GNGSV,1,1,1,1,2,3,4,5,6"), 0, 1, 0), p(S("GNGLL,x", "00"), 0, 1, 0), p(S("GNGSV,1,1,x"), 0, 1, 0), p(S("PQTMCFGUART,OK"), 0, 1, 0), p(S("PQTMCFGUART,W,115200"), 1, 1, 0), p(S("PUBX,00,1,2"), 0, 1, 0),
             p(S("PUBX,04"), 2, 1, 0), p(S("PSSNSNC,1,2,3,[a,b],[c"), 0, 1, 0), p(b"junk", 0, 3, 0), p(S("GNDTM,1"), 5, 1, 0), c("GN", "GLL", 0, ["5327.0", "S"], 0), c("GP", "ZZ1", 0, ["1", "a", "b"], 1), c("P", "QTMSN", 0, ["1", "a"], 0),
             b("GN", "GLL", 0, {"lat": -53.45, "lon": -2.25, "NS": "N", "time": gen.time(1, 2, 3), "status": "A", "posMode": "A"}, True), b("GN", "GLL", 0, {"lat": 53.45, "lon": 2.25, "time": gen.time(1, 2, 3)}, False),
             b("GN", "GSV", 0, {"numMsg": 1, "msgNum": 1, "numSV": 2, "svid_01": 7, "svid_02": 8}, False), b("GN", "GSV", 0, {"numMsg": 1}, False), b("P", "QTMCFGUART", 1, {"baudrate": 9600}, False), b("P", "UBX", 0, {"msgId": "41"}, False),
             r(S("GPHDT,1,T") + b"$x" + S("GPHDT,2,T"), runs.options(quit=1, nmeaonly=True), 0), r(S("GPHDT,1,T") + S("GPHDT,x,T") + b"$GPHD", runs.options(quit=2), 0), r(S("GPZZ1,1,q") + S("GPHDT,1,T"), runs.options(val=3), 1), r(b"", runs.options(), 2)]
    out += fixed + [(f"{f.__name__}{a}", lambda f=f, a=a, k=k: [repr(x) for x in guard(f, *a, **k)]) for f, a, k in helper_calls(rng)]
    n += len(out) - len(fixed)
    while len(out) < n:
        m = rng.choice(cat)
        nt, tx = gen.fields_for(m, rng, rng.randint(0, 3), .03)
        k = rng.random()
        if k < .5:
            out.append(p(S(gen.content(m, tx), rng.choice([None, None, None, "00"])), rng.choice([m.mode, m.mode, 0, 1, 2]), rng.choice([0, 1, 2, 3]), rng.choice([0, 0, 1, 2])))
        elif k < .65:
            out.append(c(m.talker, m.id, m.mode, tx, rng.choice([0, 0, 1, 2])))
        elif k < .9:
            nt, kw = gen.kwargs_for(m, rng, rng.randint(0, 2), 1)
            if any(t in ("TM", "DT", "DTL", "DM") and n not in kw for n, t in nt):
                continue
            out.append(b(m.talker, m.id, m.mode, gen.variant_kw(m, kw, nt, rng), rng.random() < .5))
        else:
            d = cs.mixed(rng, [x for x in cat if x.mode == 0], 3)
            out.append(r(d, runs.options(quit=rng.choice([0, 1, 2]), nmeaonly=rng.random() < .4, val=rng.choice([0, 1, 3]), handler=True), rng.choice([0, 1, 2])))
    return out


def helper_calls(rng):
    """calls of the helper functions: (function, arguments, keywords)"""
    from datetime import datetime, timedelta, timezone
    nh = pynmeagps.nmeahelpers
    M = NMEAMessage
    d = datetime(rng.randint(1981, 2030), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), tzinfo=rng.choice([None, timezone.utc]))
    la, lo = round(rng.uniform(-90, 90), 6), round(rng.uniform(-180, 180), 6)
    twins = []      # arguments that are equal but not the same: one result must not stand for the other
    for f, a in ((nh.knots2spd, ()), (nh.deg2dms, ("LA",)), (nh.deg2dmm, ("LN",)), (nh.ddd2dmm, ("LA",)), (nh.ddd2dmm, ("LN", True)), (M.val2str, ("DE",)), (M.val2str, ("IN",)), (M.val2str, ("ST",)), (M.val2str, ("LA",)), (M.val2str, ("HX",)), (nh.hex2str, ()),
                 (nh.hex2str, (4,)), (nh.llh2iso6709, (0.0, 1.0)), (nh.haversine, (0.0, 1.0, 2.0)), (nh.bearing, (0.0, -0.0, 180.0)), (nh.bearing, (90, 0.0, 180)), (nh.llh2ecef, (0.0, 0.0)), (nh.ecef2llh, (0.0, 6e6)), (nh.wnotow2utc, (5,)), (M.nomval, (0,))):
        v = rng.choice([1, 0, 0, rng.randint(2, 80)])
        tw = [v, float(v), bool(v) if v < 2 else float(v), -0.0 if v == 0 else v]
        rng.shuffle(tw)
        twins += [(f, (x, *a), {}) for x in tw]
    for mode in (1, 1.0, True, 0, False, 0.0, 2, 2.0):
        twins.append((M.nomval, ("QS", mode), {}))
    y, mo = rng.choice([(2017, 1), (2015, 7), (2012, 7), (2009, 1), (2006, 1), (1999, 1)])
    for off in rng.sample(range(-14, 15), 5):       # one local date, one local time, and one instant, in several zones
        z = timezone(timedelta(hours=off))
        for t in (datetime(y, mo, 1, 0, 30, tzinfo=z), datetime(y, mo, 1, tzinfo=timezone.utc).astimezone(z), datetime(y, mo, 1, 12, tzinfo=z), datetime(y, mo, 1, 23, 59, 59, 999000, tzinfo=z)):
            twins += [(nh.leapsecond, (t,), {}), (nh.utc2wnotow, (t,), {"modwno": False}), (nh.utc2wnotow, (t, "C"), {}), (nh.date2str, (t, rng.choice(["DT", "DM", "DTL"])), {}), (nh.time2str, (t,), {})]
    return twins + [(nh.get_parts, (S("GPHDT,1.5,T"),), {}), (nh.get_parts, ("$GPHDT,1.5,T*31\r\n",), {}), (nh.get_parts, (b"junk",), {}), (nh.calc_checksum, ("GPHDT,1,T",), {}), (nh.calc_checksum, ("é",), {}),
            (nh.generate_checksum, ("GP", "HDT", ["1", "T"]), {}), (nh.msgdesc, ("GGA",), {}), (nh.msgdesc, ("nosuch",), {}), (nh.leapsecond, (d,), {}), (nh.leapsecond, (d, "C"), {}),
            (nh.utc2wnotow, (d,), {}), (nh.utc2wnotow, (d, "C"), {}), (nh.utc2wnotow, (d, "E", False), {}), (nh.wnotow2utc, (rng.randint(0, 3000), rng.randint(0, 604799999)), {"modwno": False}),
            (nh.wnotow2utc, (rng.randint(0, 1023), 1000), {"gnss": "I"}), (nh.wnotow2utc, (rng.randint(0, 1023), 1000), {"ls": 0}), (nh.deg2dms, (la, "LA"), {}), (nh.deg2dmm, (lo, "LN"), {}), (nh.latlon2dms, (la, lo), {}),
            (nh.dms2deg, ("51°20′45.6″S",), {}), (nh.dms2deg, ("51°20′45.6″N",), {}), (nh.dms2deg, ("bad",), {}), (nh.ddd2dmm, (la, "LA"), {}), (nh.ddd2dmm, (la, "LA", True), {}), (nh.dmm2ddd, ("5120.5",), {}), (nh.dmm2ddd, ("",), {}),
            (nh.date2utc, ("010203",), {}), (nh.date2utc, ("010203", "DM"), {}), (nh.time2utc, ("010203.45",), {}), (nh.llh2iso6709, (la, lo, -1.5), {}), (nh.llh2ecef, (la, lo, 100.0), {}), (nh.ecef2llh, (4e6, 1e6, -4.5e6), {}),
            (nh.haversine, (la, lo, 1.0, 2.0), {}), (nh.haversine, (la, lo, 1.0, 2.0, 6000.0), {}), (nh.planar, (la, lo, la, lo + .001), {}), (nh.bearing, (la, lo, 1.0, 2.0), {}), (nh.area, (la, lo, 1.0, 2.0), {}),
            (nh.hex2str, (171, 8), {}), (nh.hex2str, (171,), {}), (nh.knots2spd, (2.5, "KMPH"), {}), (nh.knots2spd, (2.5, "bad"), {}), (nh.groupsize, (), {"a_01": 1, "a_07": 2}), (nh.groupsize, (), {}),
            (M.str2val, ("5120.5", "LA"), {}), (M.str2val, ("1.5", "IN"), {}), (M.str2val, ("7", "IN"), {}), (M.val2str, (-51.5, "LA"), {}), (M.val2str, (-51.5, "LA", True), {}), (M.nomval, ("QS", 0), {}), (M.nomval, ("QS", 2), {}), (M.nomval, ("??",), {})]


def fresh(cl):
    """result of every call in a process of its own (forked from this one, in which nothing was called)"""
    out = []
    for k, (d, f) in enumerate(cl):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                data = pickle.dumps(f())
            except BaseException as err:  # noqa: BLE001
                data = pickle.dumps("failed: %r" % err)
            with os.fdopen(wr, "wb") as w:
                w.write(data)
            os._exit(0)
        os.close(wr)
        with os.fdopen(rd, "rb") as x:
            out.append(pickle.loads(x.read()))
        os.waitpid(pid, 0)
    return out


def families(rng):
    """kinds of calls: per kind three inputs with the function that gives a result and what in it a caller may change"""
    from pynmeagps import SocketWrapper
    from pynmeagps.nmeahelpers import get_parts
    fam = {}
    for name in ("get_parts", "get_parts text", "parse", "read", "fields", "keywords", "usertable", "chunks"):
        ms, fam[name] = rng.sample([m for m in catalog() if m.mode == 0 and not m.fixed and m.d], 3), []
        for m in ms:
            nt, tx = gen.fields_for(m, rng, 2)
            raw = S(gen.content(m, tx))
            if name == "get_parts":
                f = lambda raw=raw: get_parts(raw)  # noqa: E731
            elif name == "get_parts text":
                f = lambda raw=raw: get_parts(raw.decode())  # noqa: E731
            elif name == "parse":
                f = lambda raw=raw: NMEAReader.parse(raw)  # noqa: E731
            elif name == "read":
                f = lambda raw=raw: NMEAReader(io.BytesIO(raw)).read()  # noqa: E731
            elif name == "fields":
                f = lambda m=m, tx=tx: NMEAMessage(m.talker, m.id, 0, payload=tx)  # noqa: E731
            elif name == "keywords":
                kw = {k: v for k, v in zip([n for n, _ in nt], tx) if k == "msgId"}
                f = lambda m=m, kw=kw: [x for x in NMEAMessage(m.talker, m.id, 0, **kw).payload if ":" not in x and "." not in x]  # noqa: E731
                if any(t in ("TM", "DT", "DTL", "DM") for _, t in nt):
                    f = lambda raw=raw: NMEAReader.parse(raw, validate=3)  # noqa: E731
            elif name == "usertable":
                ud = {"ZZ8": {f"f{i}": "ST" for i in range(len(tx))}}
                f = lambda tx=tx, ud=ud: NMEAReader.parse(S(",".join(["GPZZ8"] + tx)), userdefined=ud)  # noqa: E731
            else:
                w = b"%x\r\n" % len(raw) + raw + b"\r\n"
                f = lambda w=w, raw=raw: SocketWrapper(runs.ScriptedSocket([w]), encoding=1).buffer  # noqa: E731
            fam[name].append((raw, f))
    return fam


def parts_of(x):
    """the objects in a result that a caller can change"""
    if isinstance(x, NMEAMessage):
        return [x.payload]
    if isinstance(x, tuple):
        return [z for y in x for z in parts_of(y)]
    return [x] if isinstance(x, (list, dict, bytearray)) else []


def edits(ins, h, rng):
    """replays a history of MCCalls; '' or what went wrong"""
    def show(x):
        return proj.msg(x) if isinstance(x, NMEAMessage) else tuple(show(y) for y in x) if isinstance(x, tuple) else bytes(x) if isinstance(x, bytearray) else copy.deepcopy(x)
    want, held, edited = {}, [], set()
    for step in h:
        if step["op"] == "call":
            kind, x = guard(ins[step["k"] - 1][1])
            now = (kind, show(x))
            if want.setdefault(step["k"], now) != now:
                return f"call {step['k']}: {want[step['k']]} became {now}"[:600]
            held.append((step["k"], x))
        else:
            x = held[step["k"] - 1][1]
            for y in parts_of(x):
                if isinstance(y, dict):
                    y["changed"] = 1
                elif isinstance(y, bytearray):
                    y += b"changed"
                elif rng.random() < .5 or not y:
                    y.append("changed")
                else:
                    y[rng.randrange(len(y))] = "changed"
            if not isinstance(x, NMEAMessage):      # a message stays what it was
                edited.add(step["k"] - 1)
    for i, (k, x) in enumerate(held):
        if i not in edited and ("ok", show(x)) != want[k] and want[k][0] == "ok":
            return f"result {i + 1} of call {k}: {want[k]} became {show(x)}"[:600]
    return ""


def tables():
    return {n: repr(v) for n, v in vars(pynmeagps).items() if n.startswith("NMEA_") and isinstance(v, (dict, list, tuple))}


def session(d, o, t, iterate=False):
    """a reader of a file (bytes) or of a socket (list of segments, encoding)"""
    sk = None if isinstance(d, bytes) else runs.ScriptedSocket(d[0])
    s = runs.Session(sk, o, t, iterate, encoding=d[1], bufsize=[16, 4096][iterate]) if sk else runs.Session(io.BytesIO(d), o, t, iterate)
    s.sock = sk
    return s


def interleaved(chk, rng, label, streams, opts, tabs, limit):
    """every order of the calls of several readers, per MCInterleave"""
    alone = []
    for d, o, t in zip(streams, opts, tabs):
        s = session(d, o, t)
        n = 0
        while s.ends < 1 and n < 60:
            s.call()
            n += 1
        alone.append((n, s.items))
    r = mc(chk, "MCInterleave", {"lengths": [n for n, _ in alone]}, label)
    sched = [json.loads(x) for x in r.lines]
    chk.exhaustive[label] = f"every order of the {[n for n, _ in alone]} calls of {len(alone)} readers: {len(sched)} schedules"
    if limit and len(sched) > limit:
        sched = rng.sample(sched, limit)
    for k, sc in enumerate(sched):
        ss = [session(d, o, t, iterate=(k + i) % 4 == 0) for i, (d, o, t) in enumerate(zip(streams, opts, tabs))]
        for a in sc:
            ss[a - 1].call()
        for s in ss:
            if s.sock:
                s.sock.close()
        chk.traces += 1
        for i, s in enumerate(ss):
            if s.items != alone[i][1]:
                chk.violation(["interleaved:" + label], {"schedule": sc, "reader": i + 1, "stream": str(streams[i]), "options": opts[i], "alone": alone[i][1], "together": s.items})
                return
    chk.sample({"model": "MCInterleave", "schedule": sched[0]})


def preempted(f, k, g, root):
    """run f; at its k-th line inside the library run g; returns (results of f, of g or None)"""
    n, res = [0], [None]

    def tr(frame, ev, arg):
        if not frame.f_code.co_filename.startswith(root):
            return None
        if ev == "line":
            n[0] += 1
            if n[0] == k:
                sys.settrace(None)
                res[0] = (g(),)
                return None
        return tr
    sys.settrace(tr)
    try:
        r = f()
    finally:
        sys.settrace(None)
    return r, res[0], n[0]


def c26():
    chk, rng = Check("C26"), random.Random(core.SEED)
    before = tables()
    keep = copy.deepcopy((UD1, UD2))
    cl = calls(rng, N(160, 420))
    base = fresh(cl)
    # every call after every other call
    names = [d for d, _ in cl]
    res0 = [f() for _, f in cl]
    for i, (a, b) in enumerate(zip(res0, base)):
        chk.traces += 1
        if a != b:
            chk.violation(["history:all earlier calls"], {"call": names[i], "fresh": b, "got": a})
    stop = False
    for i, (d1, f1) in enumerate(cl):
        for j, (d2, f2) in enumerate(cl):
            f1()
            chk.traces += 1
            if f2() != base[j]:
                chk.violation(["history:pair"], {"first": d1, "then": d2, "fresh": base[j], "got": f2()})
                stop = len(chk.viol) > 20
            if stop:
                break
        if stop:
            break
    for _ in range(N(20, 300)):
        o = list(range(len(cl)))
        rng.shuffle(o)
        for j in o:
            chk.traces += 1
            if cl[j][1]() != base[j]:
                chk.violation(["history:order"], {"call": names[j], "fresh": base[j]})
                break
        if len(chk.viol) > 20:
            break
    chk.sample({"calls": len(cl), "ordered pairs": len(cl) ** 2, "first": names[:3]})
    # readers in any interleaving
    H = lambda x: S(f"GPHDT,{x},T")  # noqa: E731
    o = runs.options
    interleaved(chk, rng, "MCInterleave-3", [H(1) + H(2), S("GPZZ1,1,a") + H("x"), b"$x" + S("GPZZ1,a,b")], [o(), o(quit=1), o(quit=2, nmeaonly=True)], [None, UD1, UD2], 0)
    interleaved(chk, rng, "MCInterleave-errors", [H("x") + H(2) + b"$GP", b"$q" + H(3) + H("y"), S("GPQQQ,1") + S("GPQQQ,2")], [o(quit=1, handler=False), o(quit=2, nmeaonly=True), o(val=3, quit=1)], [None, None, UD2], N(1200, 0))
    # sockets: chunks cut in the middle, plain segments, compressed chunks
    cut = lambda w, n: [w[i:i + n] for i in range(0, len(w), n)]  # noqa: E731
    ch = lambda *b: b"".join(b"%x\r\n" % len(x) + x + b"\r\n" for x in b) + b"0\r\n\r\n"  # noqa: E731
    gz = lambda x: (lambda c: c.compress(x) + c.flush())(zlib.compressobj(6, zlib.DEFLATED, 31))  # noqa: E731
    interleaved(chk, rng, "MCInterleave-sockets", [(cut(ch(H(1)[:9], H(1)[9:] + H(2)), 7), 1), (cut(H(3) + H("x") + H(4), 9), 0), (cut(ch(gz(H(5)), gz(H(6))), 11), 3)],
                [o(quit=1), o(quit=2), o(quit=0)], [None, None, UD1], N(400, 0))
    interleaved(chk, rng, "MCInterleave-wrappers", [(cut(ch(H(1)[:9], H(1)[9:] + H(2)), 7), 1), (cut(ch(H(7), H(8)), 13), 1), H("x") + H(9)],
                [o(quit=1), o(quit=2), o(quit=0)], [None, None, UD1], N(400, 0))
    if core.thorough():
        interleaved(chk, rng, "MCInterleave-4", [H(1) + H(2), H("x") + H(3), S("GPQQQ,1") + H(1), S("GPQQQ,1") + S("GPZZ1,1,c")], [o(), o(quit=1), o(quit=2, val=3), o(mode=0)], [None, None, UD2, UD1], 20000)
    # callers that change what they were given
    r = mc(chk, "MCCalls", {"inputs": 3, "depth": N(5, 6), "memo": False}, "MCCalls")
    path = os.path.join(core.tmpdir(), "bad.json")
    json.dump({"inputs": 2, "depth": 4, "memo": True}, open(path, "w"))
    chk.notes["specification_that_repeats_results_is_rejected"] = core.tlc("MCCalls", "MCCallsBad", env={"MC": path}, must_ok=False).violated == "Fresh"
    hs = [json.loads(x) for x in r.lines]
    chk.exhaustive["MCCalls"] = f"every history of {N(5, 6)} calls (three inputs) and edits of results: {r.distinct} states"
    for fam, ins in families(rng).items():
        for h in rng.sample(hs, min(len(hs), N(700, 6000))):
            chk.traces += 1
            bad = edits(ins, h, rng)
            if bad:
                chk.violation(["edited results: " + fam], {"history": [f"{x['op']} {x['k']}" for x in h], "inputs": [repr(a)[:80] for a, _ in ins], "what": bad})
                break
    # one reader and one process over tens of thousands of sentences: every outcome is the one of the first time
    for one, n, val in ((S("GPHDT,1,T"), N(9000, 140000), 1), (S("GPQQQ,1"), N(70000, 140000), 1), (S("GPHDT,1,T", "00"), N(9000, 140000), 1), (S("GPHDT,x,T"), N(9000, 70000), 3), (b"$q", N(9000, 140000), 1), (b"\xb5b", N(40000, 140000), 0)):
        for nm in (False, True):
            errs = []
            rd = NMEAReader(io.BytesIO(one * n + S("GPROT,1,A")), quitonerror=1, errorhandler=lambda e: errs.append(type(e).__name__), nmeaonly=nm and one[0] == 36, validate=val)
            kind, got = guard(lambda: [x for x in rd])
            chk.traces += n
            first = runs.file_run(one * 2 + S("GPROT,1,A"), runs.options(quit=1, nmeaonly=nm and one[0] == 36, val=val), al=False)["items"]
            pr = [x for x in first if x["x"] == "pair"]
            er = [x["k"] for x in first if x["x"] == "err"]
            ok = kind == "ok" and len(got) == (n if len(pr) == 3 else 0) + 1 and set(errs) == set(er) and len(errs) == (n if er else 0)
            if ok and len(pr) == 3:
                txt = str(got[0][1])
                ok = all(r == one and str(m) == txt for r, m in got[:-1]) and proj.msg(got[-2][1]) == proj.msg(got[0][1])
            if not ok:
                chk.violation(["history:the same sentence again and again"], {"sentence": repr(one), "times": n, "first": pr[:1], "errors": er[:2], "got": [kind, len(got) if kind == "ok" else str(got), len(errs), sorted(set(errs))]})
    # a call preempted by another one at every line of the library
    root = os.path.join(core.REPO, "src")
    import pynmeagps.nmeareader as nr
    root = os.path.dirname(os.path.abspath(nr.__file__))
    pre, few = 0, rng.sample(range(len(cl)), N(6, 16)) + list(range(0, min(80, len(cl)), N(4, 1)))
    for i in few:
        total = preempted(cl[i][1], 0, cl[i][1], root)[2]
        pts = range(1, total + 1)
        if total > N(60, 400):
            pts = sorted(rng.sample(pts, N(60, 400)))
        for k in pts:
            j = rng.choice(few)
            a, b, _ = preempted(cl[i][1], k, cl[j][1], root)
            pre += 1
            if a != base[i] or (b and b[0] != base[j]):
                chk.violation(["preempted"], {"call": names[i], "by": names[j], "at line event": k, "fresh": base[i], "got": a})
                break
        if len(chk.viol) > 20:
            break
    chk.notes["preemptions"] = pre
    chk.traces += pre
    # threads
    bad = []

    def work(seed):
        r2 = random.Random(seed)
        for _ in range(N(3, 12)):
            o2 = list(range(len(simple)))
            r2.shuffle(o2)
            for j in o2:
                d, f, w = simple[j]
                if f() != w:
                    bad.append((d, w, f()))
                    return
    simple = threadable(rng, N(150, 500))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        th = [threading.Thread(target=work, args=(core.SEED * 100 + k,)) for k in range(8)]
        for t in th:
            t.start()
        for t in th:
            t.join()
    finally:
        sys.setswitchinterval(old)
    chk.traces += 8 * len(simple)
    for d, w, g in bad[:3]:
        chk.violation(["threads"], {"call": d, "alone": w, "in threads": g})
    # arguments and tables are left as they were
    if (UD1, UD2) != keep:
        chk.violation(["arguments: user tables changed"], {"now": repr((UD1, UD2))[:500]})
    for m in catalog():
        nt, tx = gen.fields_for(m, rng, 2, .05)
        nt, kw = gen.kwargs_for(m, rng, 2, .8)
        kw = gen.variant_kw(m, kw, nt, rng)
        tab = {"ZZ9": {"a": "IN", "g": ("a", {"b": "ST", "h": (2, {"c": "DE"})})}, m.id: {"z": "ST"}}
        raw = bytearray(S(gen.content(m, tx)))
        args = (copy.deepcopy(tx), dict(kw), copy.deepcopy(tab))
        t2 = list(tx)
        guard(NMEAMessage, m.talker, m.id, m.mode, payload=t2, userdefined=tab)
        guard(NMEAMessage, m.talker, m.id, m.mode, userdefined=tab, **kw)
        guard(NMEAReader.parse, bytes(raw), msgmode=m.mode, userdefined=tab)
        guard(NMEAMessage, "GP", "ZZ9", m.mode, payload=["2", "x", "1.5", "2", "y", "3", "4"], userdefined=tab)
        guard(NMEAReader(io.BytesIO(bytes(raw)), msgmode=m.mode, userdefined=tab, quitonerror=0).read)
        chk.traces += 1
        if (t2, kw, tab) != args or list(tab["ZZ9"]) != ["a", "g"]:
            chk.violation(["arguments changed"], {"message": repr(m), "fields": tx, "after": repr((t2, tab))[:500]})
    after = tables()
    for n in before:
        if before[n] != after.get(n):
            chk.violation(["library tables changed"], {"table": n})
    return finish(chk, "model_checking")


def threadable(rng, n):
    """calls without the (main thread only) time guard"""
    out = []

    def res(f):
        try:
            m = f()
        except Exception as err:  # noqa: BLE001
            return type(err).__name__
        return None if m is None else (str(m), repr(m), m.serialize(), m.identity)
    for _ in range(n):
        m = rng.choice(catalog())
        nt, tx = gen.fields_for(m, rng, rng.randint(0, 3), .03)
        raw, mode, val, t = S(gen.content(m, tx)), rng.choice([m.mode, m.mode, 0, 1, 2]), rng.choice([0, 1, 3]), rng.choice([None, UD1, UD2])
        if rng.random() < .25:
            raw = rng.choice([S("GPZZ1,2,a,b"), S("GPQQQ,1.5")])
        f = lambda raw=raw, mode=mode, val=val, t=t: res(lambda: NMEAReader.parse(raw, msgmode=mode, validate=val, userdefined=t))  # noqa: E731
        out.append((repr(raw), f, f()))
        nt, kw = gen.kwargs_for(m, rng, 1, 1)
        kw = gen.variant_kw(m, kw, nt, rng)
        if not any(t in ("TM", "DT", "DTL", "DM") and n not in kw for n, t in nt):
            hp = rng.random() < .5
            f = lambda m=m, kw=kw, hp=hp: res(lambda: NMEAMessage(m.talker, m.id, m.mode, hpnmeamode=hp, **kw))  # noqa: E731
            out.append((f"build {m}", f, f()))
    return out
