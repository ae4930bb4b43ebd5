"""C31-C34: what a reader leaves behind, conversion functions, texts and bytes, call forms."""
import datetime, io, random, socket

import core, gen, proj, runs
from core import Check, finish, guard
from checks_help import astext, call
from checks_msg import N, S, TYPES, catalog, same, type_texts
from checks_socket import RealSock, Sock, chunk, cut, judge_wrapper, segments, sentences
from checks_stream import judge_files, junk, mixed
from pynmeagps import NMEAMessage, NMEAReader
from pynmeagps.socketwrapper import SocketWrapper
import pynmeagps as P


# ------------------------------------------------------------------ C31
def filepos(stream):
    return lambda r: {"pos": stream.p if isinstance(stream, runs.ByteStream) else stream.tell()}


def waiting(r):
    kind, v = guard(r.datastream.in_waiting)
    return {"left": v if kind == "ok" and isinstance(v, int) else -1}


def shared_run(rng, stream, o, use, limit, take=0.0, fresh=0.0, ends=3, **kw):
    """calls on a stream, some by other readers of the same stream, with the caller's own reads between them"""
    s = runs.Session(stream, o, None, rng.random() < .3, **kw)
    s.use = use
    while s.r is not None and s.ends < ends and len(s.items) < limit:
        s.call()
        if s.items[-1].get("k") == "hang":
            break
        if rng.random() < fresh:
            kind, r = s.make(s.r.datastream)
            if kind != "ok":
                s.items.append({"x": "raise", "k": kind})
                break
            s.r = r
        if rng.random() < take:
            n = rng.choice([1, 1, 2, 3, 7, 20])
            kind, v = guard(s.r.datastream.read, n)
            s.items.append({"x": "take", "n": n, "out": list(v) if kind == "ok" else ["exc"]})
    return s.items


def c31():
    chk, rng = Check("C31"), random.Random(core.SEED)
    ok = lambda c: c.startswith("use") or c in ("frame:unread", "frame:extra") or c.startswith("frame:lost")  # noqa: E731
    rs, cat = [], gen.catalog()
    for k in range(N(400, 6000)):
        o = runs.options(quit=rng.choice([0, 1, 2]), nmeaonly=rng.random() < .3, handler=rng.random() < .6, val=rng.choice([0, 1, 1, 3]))
        d = mixed(rng, [m for m in cat if m.mode == 0], rng.randint(1, 5), rng.choice(["all", "good"]))
        st = rng.choice([io.BytesIO, runs.ByteStream, lambda x: io.BufferedReader(io.BytesIO(x), 32)])(d)
        items = shared_run(rng, st, o, filepos(st), len(d) + 10, take=rng.choice([0, 0, .3]), fresh=rng.choice([0, .5, 1]))
        rs.append({"d": list(d), "o": o, "items": items, "al": []})
    judge_files(chk, rs, ok, label="files")
    rs = []
    for k in range(N(250, 4000)):
        o = runs.options(quit=rng.choice([0, 1, 2]), nmeaonly=rng.random() < .2, val=rng.choice([0, 1]))
        data = sentences(rng, [m for m in cat if m.mode == 0], rng.randint(1, 4))
        ch = rng.random() < .4
        wire = b"".join(chunk(x) for x in segments(rng, data, "mixed")) + b"0\r\n\r\n" if ch else data
        script = segments(rng, wire, gaps=rng.choice([0, 0, 1, 3]))
        sk = Sock(script)
        items = shared_run(rng, sk, o, waiting, len(wire) + 10, take=rng.choice([0, .3]), fresh=rng.choice([0, .5]),
                           ends=sum(isinstance(x, str) for x in script) + 3, encoding=int(ch), bufsize=rng.choice([1, 7, 64, 4096, 4096]))
        rs.append({"wire": list(wire), "script": sk.log + sk.rest(), "chunked": ch, "codec": [], "o": o, "items": items, "al": []})
        sk.close()
    judge_files(chk, rs, ok, label="sockets")
    # the wrapper's own account of its buffer after every call
    ws = []
    for k in range(N(150, 2500)):
        data = sentences(rng, cat, rng.randint(1, 3)) + (junk(rng) if rng.random() < .3 else b"")
        ch = rng.random() < .4
        wire = b"".join(chunk(x) for x in segments(rng, data, "mixed")) + b"0\r\n\r\n" if ch else data
        ws.append(buffer_run(rng, wire, segments(rng, wire, gaps=rng.choice([0, 1, 2])), ch))
    judge_wrapper(chk, ws, "buffers")
    # streams are used as they are, bytes are sent as they are
    ev = []
    for st in (io.BytesIO(b""), runs.ByteStream(b""), io.BufferedReader(io.BytesIO(b"$GP"))):
        kind, r = guard(NMEAReader, st)
        ev.append(same(kind == "ok" and r.datastream is st, True, "datastream is the stream given"))
        ev.append(same(kind == "ok" and iter(r) is r, True, "iter(reader) is the reader"))
    for k in range(N(20, 100)):
        a, b = socket.socketpair()
        b.settimeout(5)
        b.sendall(b"x")
        w = SocketWrapper(RealSock(a), bufsize=rng.choice([4096, 4096, 1, 64, 100, 1000, 65536]))
        data = rng.randbytes(rng.choice([1, 2, 80, 500, 3000, 4095, 4096, 4097, 9000, 60000]))
        if k % 2:
            data = rng.choice([b"", b"\x00", b" ", b"$"]) + data[:20] + rng.choice([b"\x00", b"\r\n", b"\n", b" ", b"\r", b"\x00\x00", b"$", b"\xff"])
        if rng.random() < .2:
            data = bytearray(data)
        kind, n = guard(w.write, data)
        got = b""
        while kind == "ok" and isinstance(n, int) and len(got) < n:
            x = b.recv(65536)
            if not x:
                break
            got += x
        ev.append(same([kind, n, list(got)], ["ok", len(data), list(data)], "write"))
        ev.append(same([list(w.read(1)), w.in_waiting()], [[120], 0], "read after write"))
        b.close()
    chk.events(ev, label="passing through")
    return finish(chk, "model_checking")


def buffer_run(rng, wire, script, chunked):
    sk = Sock(script)
    ops = []
    bs = rng.choice([1, 3, 16, 4096])
    kind, w = guard(SocketWrapper, sk, encoding=int(chunked), bufsize=bs)
    if kind != "ok":
        ops.append({"op": 1, "kind": kind, "out": []})
    dry = 0
    while kind == "ok" and dry < sum(isinstance(x, str) for x in script) + 3 and len(ops) < 3000:
        op = 1 if dry else rng.choice([0, 0, 1, 2, 5, 17, 64])
        kind, v = guard(w.readline) if op == 0 else guard(w.read, op)
        o = {"op": op, "kind": kind, "out": list(v) if kind == "ok" else []}
        if kind == "ok":
            o["left"] = list(w.buffer) if isinstance(w.buffer, (bytes, bytearray)) and w.in_waiting() == len(w.buffer) else [-1]
        ops.append(o)
        dry = dry + 1 if op == 1 and not o["out"] else dry
    run = {"wire": list(wire), "script": sk.log + sk.rest(), "chunked": chunked, "codec": [], "ops": ops, "bufsize": bs}
    sk.close()
    return run


# ------------------------------------------------------------------ C32
def nominals(types):
    ev = []
    for t in types:
        for mode in (0, 1, 2, None):
            t0 = gen.now6()
            kind, v = guard(NMEAMessage.nomval, t) if mode is None else guard(NMEAMessage.nomval, t, mode)
            ev.append({"op": "nominal", "ty": t, "mode": mode or 0, "kind": kind, "v": proj.val(v) if kind == "ok" else {"t": "o"}, "t0": t0, "t1": gen.now6()})
            if kind == "ok":
                k2, x = guard(NMEAMessage.val2str, v, t)
                ev.append({"op": "fieldout", "ty": t, "v": proj.val(v), "hp": False, "kind": k2, "r": astext(k2, x)})
    return ev


def c32():
    chk, rng = Check("C32"), random.Random(core.SEED)
    ev = []
    for t in TYPES:
        for s in type_texts(t, rng, N(250, 4000)):
            kind, r = call(NMEAMessage.str2val, s, t)
            ev.append({"op": "fieldin", "ty": t, "s": proj.text(s), "kind": kind, "r": r})
            if kind == "ok" and rng.random() < .5:       # and back
                v = NMEAMessage.str2val(s, t)
                if isinstance(v, float) and v - v != 0:     # no text of its own
                    continue
                if t in ("LA", "LN") and isinstance(v, float) and abs(v) > (90 if t == "LA" else 180):
                    continue
                hp = rng.random() < .5
                k2, x = guard(NMEAMessage.val2str, abs(v) if t in ("LA", "LN") and isinstance(v, float) else v, t, hp)
                ev.append({"op": "fieldout", "ty": t, "v": proj.val(v), "hp": hp, "kind": k2, "r": astext(k2, x)})
        for _ in range(N(150, 2500)):
            v = gen.value(t, rng)
            hp = rng.random() < .5
            kind, x = guard(NMEAMessage.val2str, v, t, hp) if rng.random() < .5 else guard(NMEAMessage.val2str, v, t, hpmode=hp)
            ev.append({"op": "fieldout", "ty": t, "v": proj.val(v), "hp": hp, "kind": kind, "r": astext(kind, x)})
        for _ in range(N(60, 1000)):        # values given as text: in writing of their own, or as the protocol has them
            v, hp = gen.value(t, rng), rng.random() < .5
            if t == "TM":
                v = rng.choice([v.isoformat(), v.isoformat(), v.strftime("%H:%M:%S"), v.strftime("%H%M%S.%f"), v.strftime("%H:%M:%S.%f")[:rng.randint(9, 15)], ""])
            elif t in ("DT", "DTL", "DM"):
                v = rng.choice([v.isoformat(), v.isoformat(), v.isoformat().replace("-", "")])
            else:
                v = gen.good_text(t, rng) if t not in ("LA", "LN") else ""
            kind, x = guard(NMEAMessage.val2str, v, t, hp)
            ev.append({"op": "fieldout", "ty": t, "v": proj.val(v), "hp": hp, "kind": kind, "r": astext(kind, x)})
        ev += nominals((t,))
    for t in ["", "XX", "de", "INT", "DE ", "D", "LATD", "None", None, 5, "ZZ", "HX2", "group"] + sorted({f(t) for t in TYPES for f in (str.lower, lambda t: t + "X", lambda t: "X" + t, lambda t: t[:1], lambda t: t + " ", lambda t: t + t)} - set(TYPES)):
        for what, f in (("str2val", lambda: NMEAMessage.str2val(rng.choice(["", "1", "x"]), t)), ("val2str", lambda: NMEAMessage.val2str(rng.choice(["", "1", 1, 1.5]), t)),
                        ("nomval", lambda: NMEAMessage.nomval(t)), ("nomval", lambda: NMEAMessage.nomval(t, 2))):
            kind, _ = guard(f)
            ev.append({"op": "kind", "what": f"{what} of type {t!r}", "kind": kind, "allowed": ["NMEATypeError"]})
    chk.events(ev, label="conversions")
    chk.events(core.later("C32"), label="later")
    return finish(chk, "model_checking")


# ------------------------------------------------------------------ C33
def c33():
    chk, rng = Check("C33"), random.Random(core.SEED)
    ev = []

    def both(t, mode=0, val=1, udt=None):
        raw = t.encode("utf-8")
        a, _ = proj.result(NMEAReader.parse, raw, msgmode=mode, validate=val, userdefined=udt)
        b, _ = proj.result(NMEAReader.parse, t, msgmode=mode, validate=val, userdefined=udt)
        ev.append(same(a, b, "parse of text and of bytes", sentence=t, mode=mode, val=val))
        if rng.random() < .4:
            ev.append(gen.parse_event(raw, mode, val, 0, b) if udt is None else same(a, b, "parse"))
        x, y = guard(P.get_parts, raw), guard(P.get_parts, t)
        ev.append(same(parts(x), parts(y), "get_parts of text and of bytes", sentence=t))
    for m in catalog():
        for _ in range(N(3, 30)):
            nt, tx = gen.fields_for(m, rng, rng.randint(0, 2), rng.choice([0, .1]))
            t = S(gen.content(m, tx), None if rng.random() < .85 else "00", end=rng.choice(["\r\n", "\r\n", "\n", ""])).decode("utf-8")
            both(t, m.mode, rng.randint(0, 3))
    for _ in range(N(1500, 20000)):
        t = "".join(rng.choice("$$GPHDT,,,1.5*0F\r\n\u00e9\u20ac x") for _ in range(rng.randint(0, 25)))
        if rng.random() < .6:
            m = rng.choice(catalog())
            s = S(gen.content(m, gen.fields_for(m, rng, 1)[1])).decode("utf-8")
            p = rng.randrange(len(s))
            t = s[:p] + rng.choice(["", "$", "*", ",", "\u00e9", "\n", "*00", "\x00"]) + s[p + rng.randint(0, 2):]
        both(t, rng.choice([0, 0, 1, 2]), rng.randint(0, 3))
    good = S("GPHDT,1.5,T").decode()
    for c in list("$*,\r\n\t\v\f\x00\x1a\x1c\x1f \x7f\x85\xa0\u2028\u3000\ufeff\u200b\U0001f600") + ["\r\n", "$$", "  "]:     # one more character at each end and place
        for p in (0, 1, 2, 3, 6, 7, len(good) - 5, len(good) - 4, len(good) - 2, len(good) - 1, len(good)):
            for val in (0, 1, 3):
                both(good[:p] + c + good[p:], 0, val)
    udt = {"ZZ1": {"a": "IN", "b": "ST"}}
    for t in ("GPZZ1,1,x", "GPZZ1,x,x", "GPZZ1", "PZZ1,1,2"):
        both(S(t).decode(), 0, 1, udt)
        both(S(t).decode(), 0, 3, udt)
    chk.events(ev, label="texts and bytes", only=lambda c, e: e["op"] == "same" or c.startswith("kind") or c == "uninterpretable")
    return finish(chk, "model_checking")


def parts(x):
    kind, v = x
    return [kind, [p if isinstance(p, str) else list(p) for p in v] if kind == "ok" else []]


# ------------------------------------------------------------------ C34
def in_forms(fn, *a, **k):
    """the outcomes of one call written in every way: as given, defaults omitted, by position, by keyword"""
    out = []
    for how in range(4):
        pa, kw = core.reform(core.FORMS[fn], how, list(a), k)
        out.append((how, lambda pa=pa, kw=kw: fn(*pa, **kw)))
    return out


HOW = ["as given", "defaults omitted", "by position", "by keyword"]


def plain(kind, v):
    """outcome of a helper function in comparable terms"""
    if kind != "ok":
        return [kind]
    return [kind, repr(v)]


def c34():
    chk, rng = Check("C34"), random.Random(core.SEED)
    ev = []
    cat = catalog()
    # parse and the constructor: the judge is told the documented defaults
    for m in cat:
        for _ in range(N(2, 20)):
            nt, tx = gen.fields_for(m, rng, rng.randint(0, 2), rng.choice([0, .05]))
            t = gen.content(m, tx)
            raw = S(t, rng.choice([None, None, "00", "zz"])) if rng.random() < .5 else S(t)
            if rng.random() < .1:
                raw = S("GPQQQ,1")
            mode, val = rng.choice([0, m.mode, m.mode]), rng.choice([1, 1, 1, 0, 2, 3])
            res = [proj.result(f)[0] for _, f in in_forms(NMEAReader.parse, raw, msgmode=mode, validate=val, userdefined=None)]
            ev += [gen.parse_event(raw, mode, val, 0, res[1]), same(res, [res[1]] * 4, "parse in every call form", sentence=t, mode=mode, val=val, forms=HOW)]
        for _ in range(N(1, 10)):
            nt, kw = gen.kwargs_for(m, rng, 1, .7)
            kw = gen.variant_kw(m, kw, nt, rng)
            hp, val = rng.choice([False, False, True]), rng.choice([1, 1, 3])
            for how in (1, 1 + rng.randint(1, 2)):
                pa, k = core.reform(core.FORMS[NMEAMessage], how, [m.talker, m.id, m.mode], {"hpnmeamode": hp, "validate": val, "userdefined": None, "checksum": None, **kw})
                ev.append(gen.build_event(lambda *x, **y: NMEAMessage(*pa, **k), NMEAReader, proj, m.talker, m.id, m.mode, kw, val=val, hp=hp)[0])
        for _ in range(N(2, 20)):      # a payload leaves no say to attribute keywords
            nt, tx = gen.fields_for(m, rng, rng.randint(0, 2))
            tx = tx[:rng.choice([len(tx), len(tx), rng.randint(0, len(tx))])]
            kw = gen.variant_kw(rng.choice([x for x in cat if x.id == m.id]), gen.kwargs_for(m, rng, 1, .7)[1], nt, rng)
            kw.update(rng.choice([{}, {"portid": 1}, {"porttype": 1, "msgver": 2}, {"maskhigh": "0"}, {"enable": 0}, {"lon1": 1.5, "geofencemode": 0}, {"msgtype": 3}, {"nonsense": "x", "a_01": 1},
                                  {"baudrate": 1, "databit": 8}, {"msgId": "41"}, {"lat": -1.5, "lon": -2.5}]))
            a = proj.result(lambda: NMEAMessage(m.talker, m.id, m.mode, payload=list(tx)))[0]
            b = proj.result(lambda: NMEAMessage(m.talker, m.id, m.mode, payload=list(tx), **kw))[0]
            ev.append(same(b, a, "payload and other keywords", message=m.id, fields=tx, keywords=str(kw)))
    for i in ("GPQQQ,1", "XXGLL,1", "PQQQ", "GPHDT,1,T"):     # defaults that decide the outcome
        for ck in (None, "00"):
            raw = S(i, ck)
            ev.append(gen.parse_event(raw, 0, 1, 0, proj.result(lambda: NMEAReader.parse(raw))[0]))
            for n, v in (("msgmode", 1), ("msgmode", 2), ("validate", 0), ("validate", 2), ("validate", 3), ("userdefined", {})):
                ev.append(gen.parse_event(raw, v if n == "msgmode" else 0, v if n == "validate" else 1, 0, proj.result(lambda: NMEAReader.parse(raw, **{n: v}))[0]))
    chk.events(ev, label="messages")
    # readers: options left out, given by position or by keyword
    rs = []
    for k in range(N(300, 3000)):
        o = runs.options(quit=rng.choice([1, 1, 0, 2]), nmeaonly=rng.random() < .2, val=rng.choice([1, 1, 0, 3]), mode=rng.choice([0, 0, 1, 2]), handler=rng.random() < .5)
        d = mixed(rng, [m for m in cat if m.mode == o["mode"]], rng.randint(1, 4), "all")
        s = runs.Session(io.BytesIO(d), o, None, rng.random() < .5)
        rs.append({"d": list(d), "o": o, "items": s.run(3, len(d) + 10), "al": []})
    for k in range(N(60, 500)):      # the same reader with nothing given at all, or one option only
        n, v = [(None, None), ("quitonerror", 0), ("quitonerror", 2), ("nmeaonly", True), ("validate", 0), ("validate", 3), ("msgmode", 1), ("msgmode", 2)][k % 8]
        o = runs.options(**{"handler": False, **({{"quitonerror": "quit", "validate": "val", "msgmode": "mode"}.get(n, n): v} if n else {})})
        d = mixed(rng, [m for m in cat if m.mode == o["mode"]], rng.randint(1, 4), "all")
        s = runs.Session(io.BytesIO(d), o)
        s.r = NMEAReader(io.BytesIO(d), **({n: v} if n else {}))
        rs.append({"d": list(d), "o": o, "items": s.run(3, len(d) + 10), "al": []})
    judge_files(chk, rs, lambda c: True, label="readers")
    # sockets: no encoding and 4096 bytes a time unless told otherwise
    rs, ev = [], []
    for k in range(N(40, 400)):
        data = sentences(rng, [m for m in cat if m.mode == 0], rng.randint(1, 4)) * rng.choice([1, 1, 30])
        kw = rng.choice([{}, {"bufsize": 16}, {"encoding": 0}, {"encoding": 1}, {"encoding": 1, "bufsize": 50}])
        wire = b"".join(chunk(x) for x in segments(rng, data, "mixed")) + b"0\r\n\r\n" if kw.get("encoding") else data
        sk = Sock(segments(rng, wire))
        o = runs.options(handler=False)
        s = runs.Session(sk, o, **kw)
        rs.append({"wire": list(wire), "script": sk.log + sk.rest(), "chunked": bool(kw.get("encoding")), "codec": [], "o": o, "items": s.run(3, len(wire) + 10), "al": []})
        rs[-1]["script"] = sk.log + sk.rest()
        ev.append(same(max(sk.sizes) <= kw.get("bufsize", 4096), True, "bytes asked of the socket", sizes=sk.sizes[:9], options=kw))
        sk.close()
    judge_files(chk, rs, lambda c: True, label="sockets")
    # the small functions
    f = lambda lo, hi: round(rng.uniform(lo, hi), rng.choice([0, 2, 6]))  # noqa: E731
    from datetime import date, datetime, time, timezone
    d = lambda: datetime(rng.randint(1980, 2030), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), tzinfo=timezone.utc)  # noqa: E731
    pts = lambda: (f(-90, 90), f(-180, 180), f(-90, 90), f(-180, 180))  # noqa: E731
    for _ in range(N(40, 400)):
        u = d()
        calls = [(P.haversine, pts() + (6378.137,)), (P.area, pts() + (6378.137,)), (P.planar, pts() + (6378137.0,)), (P.bearing, pts()),
                 (P.date2str, (u.date(), "DT")), (P.date2utc, (u.strftime("%d%m%y"), "DT")), (P.time2str, (u.time(),)), (P.time2utc, (u.strftime("%H%M%S.00"),)),
                 (P.ddd2dmm, (f(-90, 90), "LA", False)), (P.ddd2dmm, (f(-180, 180), "LN", False)), (P.dmm2ddd, ("5327.04319",)), (P.deg2dmm, (f(-90, 90), "LN")), (P.deg2dms, (f(-90, 90), "LA")),
                 (P.dms2deg, (P.deg2dms(rng.uniform(-90, 90), "LA"), 7)), (P.llh2iso6709, (f(-90, 90), f(-180, 180), f(0, 9000), "WGS_84")),
                 (P.llh2ecef, (f(-90, 90), f(-180, 180), f(0, 9000), 6378137.0, 298.257223563)), (P.ecef2llh, (f(-7e6, 7e6), f(-7e6, 7e6), f(-7e6, 7e6), 6378137.0, 298.257223563)),
                 (P.hex2str, (rng.randint(0, 99999), 0)), (P.knots2spd, (f(0, 99), "MS")), (P.leapsecond, (u, "G")), (P.utc2wnotow, (u, "G", True)),
                 (P.wnotow2utc, (rng.randint(0, 5000), rng.randint(0, 604799999), None, "G", False, True)), (P.wnotow2utc, (rng.randint(0, 5000), 0, rng.choice([0, 18]), rng.choice("GECJI"), False, False)),
                 (NMEAMessage.val2str, (f(-90, 90), "LA", False)), (NMEAMessage.nomval, ("QS", 0)), (NMEAMessage.str2val, ("1.5", "DE")),
                 (P.latlon2dmm, (f(-90, 90), f(-180, 180))), (P.latlon2dms, (f(-90, 90), f(-180, 180))), (P.msgdesc, ("GLL",)), (P.calc_checksum, ("GNGLL,1",)), (P.generate_checksum, ("GN", "GLL", ["1"]))]
        for fn, a in calls:
            got = [plain(*guard(g)) for _, g in in_forms(fn, *a)]
            ev.append(same(got, [got[0]] * 4 if got[0][0] == "ok" else [["ok"]] * 4, f"{fn.__name__} in every call form", args=str(a), forms=HOW))
    chk.events(ev, label="functions")
    return finish(chk, "model_checking")


# ------------------------------------------------------------------ C35
NUMBERS = ("GET SET POLL SETPOLL OUTPUT INPUT VALNONE VALCKSUM VALMSGID ERR_IGNORE ERR_LOG ERR_RAISE NMEA_PROTOCOL UBX_PROTOCOL RTCM3_PROTOCOL "
           "DEF_STND DEF_PROP DEF_USER DEF_UNKN ENCODE_NONE ENCODE_CHUNKED ENCODE_GZIP ENCODE_COMPRESS ENCODE_DEFLATE DEFAULT_BUFSIZE").split()
LETTERS = "GPS GLO GAL BDS QZS IRN SBA WGS84 CH DE DT DTL DM HX IN LA LAD LN LND QS ST TM".split()
WRITTEN = "WGS84_SMAJ_AXIS WGS84_FLATTENING EPOCH0_GPS GPSEPOCH0 EPOCH0_BEIDOU EPOCH0_GAL EPOCH0_IRN".split()


def c35():
    chk, rng = Check("C35"), random.Random(core.SEED)
    D = __import__("pynmeagps.nmeatypes_decodes", fromlist=["x"])
    ev = []

    def look(t, k, table, get):
        """the meaning of code k as the table gives it for the value get() of a parsed message"""
        for mod in (P, D):
            kind, r = guard(lambda: getattr(mod, table).get(get(), "-"))
            ev.append({"op": "decode", "t": t, "k": k, "kind": kind, "r": r if isinstance(r, str) else "?" + repr(r)})

    def attr(ident, mode, name):
        """value of the attribute when the field of that name holds x"""
        m = next(m for m in catalog(mode) if m.id == ident and m.talker != "P")

        def of(x):
            nt, tx = gen.fields_for(m, rng, 1)
            for j, (n, t) in enumerate(nt):
                if n == name:
                    tx[j] = x
            if rng.random() < .5:
                return getattr(NMEAReader.parse(S(gen.content(m, tx))), name)
            return getattr(next(iter(NMEAReader(io.BytesIO(S(gen.content(m, tx))))))[1], name)
        return of

    for rep in range(N(3, 30)):
        q = attr("GGA", 0, "quality")
        for k in range(0, 10):
            for table in ("QUALITY", "FIXTYPE_GGA"):
                look("quality", k, table, lambda: q(rng.choice(["%d", "%d", "0%d"]) % k))
        for ident in ("RMC", "GLL", "VTG"):
            pm = attr(ident, 0, "posMode")
            for k in "ABCDEFGHIJKLMNOPQRSTUVWXYZadr1":
                look("posmode", k, "POSMODE", lambda: pm(k))
        gm = attr("GNS", 0, "posMode")
        for _ in range(10):             # one letter per constellation
            ks = "".join(rng.choice("ANEDFRPSMX") for _ in range(rng.randint(1, 6)))
            got = gm(ks)
            for j, k in enumerate(ks):
                look("posmode", k, "POSMODE", lambda: got[j])
        for k in range(0, 10):
            look("gnss", k, "GNSSLIST", lambda: k)
        for ident in ("GSA", "GRS", "GBS"):
            sy = attr(ident, 0, "systemId")
            for k in "0123456789ABF":
                look("system", k, "SYSTEMID", lambda: sy(k))
        for ident in ("GRS", "GBS"):
            sy, sg = attr(ident, 0, "systemId"), attr(ident, 0, "signalId")
            for a in "01234567":
                for b in "0123456789ABCDEF":
                    look("signal", [a, b], "SIGNALID", lambda: (sy(a), sg(b)))
    st = attr("FMI", 0, "status")
    words = [1 << b for b in range(32)] + [0, 0xFFFFFFFF, 0x001C0001] + [rng.getrandbits(32) & rng.getrandbits(32) for _ in range(N(150, 3000))] + [rng.getrandbits(21) for _ in range(N(150, 3000))]
    for w in words:
        x = rng.choice(["%08X", "%X", "%08x", "%06X"]) % w
        for mod in (P, D):
            kind, r = guard(lambda: [list(v) for k, v in mod.FMI_STATUS.items() if int(st(x), 16) & k])
            ev.append({"op": "decode", "t": "fmi", "k": [ord(c) for c in x], "kind": kind, "r": r if kind == "ok" else []})
    for t, names in (("number", NUMBERS), ("letters", LETTERS), ("letters", WRITTEN)):
        for n in names:
            for mod in (P, __import__("pynmeagps.nmeatypes_core", fromlist=["x"])):
                kind, r = guard(getattr, mod, n)
                if names is WRITTEN:
                    r = str(r) if isinstance(r, datetime.datetime) else str(float(r)) if isinstance(r, (int, float)) else "?"
                ev.append({"op": "decode", "t": t, "k": n, "kind": kind, "r": (r if isinstance(r, int if t == "number" else str) else -99 if t == "number" else "?")})
    chk.events(ev, label="codes")
    return finish(chk, "model_checking")
