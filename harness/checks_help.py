"""C19, C20, C22, C23, C28, C29: conversions and helpers."""
import json, os, random, re
from datetime import date, datetime, time, timedelta, timezone

import core, gen, proj
from core import Check, finish, guard
from checks_msg import N, S, bev, broken, mc, pev, same
import pynmeagps as P

DAY0 = datetime(1, 1, 1, tzinfo=timezone.utc)


def call(fn, *a, **k):
    """(kind, projected value) of a helper call"""
    kind, v = guard(fn, *a, **k)
    return kind, (proj.val(v) if kind == "ok" else {"t": "o", "x": kind})


def astext(kind, v):
    return proj.text(v) if kind == "ok" and isinstance(v, str) else proj.text("<%s>" % (kind if kind != "ok" else type(v).__name__))


# ------------------------------------------------------------------ positions
def degrees(rng, n, lim):
    """decimal degrees: anything, and everything near a carry"""
    out = [0, 0.0, -0.0, 1, -1, lim, -lim, float(lim), 0.5, 1e-9, -1e-9, 5e-8, 1 / 3, 2 / 3, 29.9999999, 59 / 60, 1 / 60, 1e-5, -1e-5, 1e-12, 0.1, 0.7, 5e-324, 9.99999995]
    for _ in range(n):
        k = rng.random()
        if k < .3:
            v = round(rng.uniform(-lim, lim), rng.randint(0, 12))
        elif k < .5:           # on the grid of the text format, and a hair beside it
            dp = rng.choice([5, 7])
            v = rng.randint(0, lim - 1) + rng.randint(0, 60 * 10 ** dp - 1) / (60 * 10 ** dp) + rng.choice([0, 0, 1, -1, .5, -.5, .49, .51]) / (60 * 10 ** dp)
        elif k < .75:          # minutes about to become 60
            v = rng.randint(1, lim) - rng.choice([1, 4, 6, 8, 9, 5]) * 10.0 ** -rng.randint(5, 11)
        elif k < .85:
            v = rng.randint(0, lim - 1) + rng.randint(1, 59) / 60 - rng.choice([0, 1, 5, 8]) * 10.0 ** -rng.randint(6, 11)
        else:
            v = rng.choice([rng.uniform(0, 1e-4), rng.randint(-lim, lim), rng.randint(0, lim) + rng.randint(0, 59) / 60 + rng.randint(0, 59) / 3600])
        v = v if rng.random() < .5 else -v
        if abs(v) <= lim:
            out.append(v)
    return out


def c19():
    chk, rng = Check("C19"), random.Random(core.SEED)
    ev = []
    for att, lim in (("LA", 90), ("LN", 180)):
        for v in degrees(rng, N(2500, 40000), lim):
            for hp in ((False, True) if rng.random() < .5 else (rng.random() < .5,)):
                kind, s = guard(P.ddd2dmm, v, att, hp) if rng.random() < .5 else guard(P.ddd2dmm, v, att, hpmode=hp)
                ev.append({"op": "ddd2dmm", "v": proj.val(v), "att": att, "hp": hp, "r": astext(kind, s)})
                if kind == "ok" and isinstance(s, str):
                    kind, back = call(P.dmm2ddd, s)
                    ev.append({"op": "dddrt", "v": proj.val(v), "hp": hp, "r": back})
    # text -> degrees
    for k in range(N(3000, 30000)):
        t = gen.good_text(rng.choice(["LA", "LN"]), rng)
        if rng.random() < .35:
            t = rng.choice(gen.BADS["LA"] + gen.BADS["LN"] + ["", ".", "....", "5", "1234", "0.5", "12.5", "123.5", "1234.", "-1234.5", "12345.x", "N5206.1", "52:06.1", "5206,1", "5206.1N", " ", "abcd.e", "\u0000", "5206.1 x"])
        elif rng.random() < .2 and t:
            p = rng.randrange(len(t))
            t = t[:p] + rng.choice("x:N/ A") + t[p + rng.randint(0, 1):]
        kind, r = call(P.dmm2ddd, t)
        ev.append({"op": "dmm2ddd", "s": proj.text(t), "r": r})
    for t in (None, 5206.1, 52, b"5206.1"):
        pass      # only text is specified
    for v in ("", "abc", "12", None):          # not a number: no position text
        for att in ("LA", "LN"):
            kind, r = call(P.ddd2dmm, v, att)
            ev.append({"op": "empty", "what": "ddd2dmm of %r" % (v,), "r": r})
    chk.events(ev, label="texts")
    # the same through messages
    ev = []
    la, lo = degrees(rng, N(400, 6000), 90), degrees(rng, N(400, 6000), 180)
    for a, b in zip(la, lo):
        m = rng.choice([("GN", "GLL", 0), ("GN", "GGA", 0), ("GN", "RMC", 0), ("GP", "WPL", 0), ("GN", "GNS", 0)])
        ev.append(bev(*m, {"lat": a, "lon": b}, hp=rng.random() < .5)[0])
    ok = re.compile(r"(b:field|rt):(LA|LN):").match
    chk.events(ev, only=lambda c, e: bool(ok(c)) or broken(c) or c.startswith(("b:kind", "rt:kind")), label="messages")
    return finish(chk, "model_checking")


# ------------------------------------------------------------------ dates and times
def tup(s):
    return tuple(int(x) for x in re.findall(r"-?\d+", s))


def c20():
    chk, rng = Check("C20"), random.Random(core.SEED)
    us = [0, 990000, 9999, 10000, 999999] if core.thorough() else [0, rng.choice([990000, 999999, 10000, 9999, 123456])]
    r = mc(chk, "MCCalendar", {"us": us}, "MCCalendar")
    chk.exhaustive["MCCalendar"] = f"every date 1969-2068 in three forms, every second of a day with microseconds {us}: {r.distinct} states"
    n = 0
    for ln in r.lines:
        n += 1
        k, a, *tx = ln.split("|")
        a = tup(a)
        if k == "d":
            d = date(*a)
            for form, t in zip(("DT", "DTL", "DM"), tx):
                x = guard(P.date2str, d if n % 3 else datetime(*a, 13, 1), form)
                y = guard(P.date2utc, t, form)
                if x != ("ok", t) or y != ("ok", d) or (y[1].__class__ is not date):
                    chk.violation(["date:" + form], {"date": str(d), "form": form, "text": t, "date2str": str(x), "date2utc": str(y)})
            if guard(P.date2str, d) != ("ok", tx[0]) or guard(P.date2utc, tx[0]) != ("ok", d):
                chk.violation(["date:default form"], {"date": str(d)})
        else:
            t = time(*a)
            x = guard(P.time2str, t if n % 3 else datetime(2024, 2, 29, *a))
            y = guard(P.time2utc, tx[0])
            if x != ("ok", tx[0]) or y != ("ok", t.replace(microsecond=a[3] // 10000 * 10000)):
                chk.violation(["time"], {"time": str(t), "text": tx[0], "time2str": str(x), "time2utc": str(y)})
    chk.traces += n
    chk.sample(*r.lines[:4])
    # texts that may or may not denote a date or a time
    ev = []
    texts = [f"{d:02d}{m:02d}{y:02d}" for d in range(0, 41) for m in range(0, 20) for y in (0, 23, 24, 68, 69, 99)] if core.thorough() else \
            [f"{rng.randint(0, 40):02d}{rng.randint(0, 20):02d}{rng.choice([0, 23, 24, 68, 69, 99, rng.randint(0, 99)]):02d}" for _ in range(1500)]
    junk = ["", "x", "1", "0101", "010124x", "01-01-24", "0101244", "01012", "ab0124", "01/124", "999999", "000000", "0", " ", "      ", "10124", "1124", "+10124", "-10124", "010124Z", "2024-01-01", "\x00", "010124\n"[:-1] + "."]
    for form in ("DT", "DTL", "DM"):
        for t in texts:
            if form == "DTL":
                t = t[:4] + rng.choice(["19", "20", "20", "00", "99"]) + t[4:]
            k, r = call(P.date2utc, t, form)
            ev.append({"op": "date2utc", "s": proj.text(t), "form": form, "r": r})
        for t in junk + [gen.good_text(f, rng) for f in ("DT", "DTL", "DM", "TM", "DE") for _ in range(N(40, 200))]:
            k, r = call(P.date2utc, t, form)
            ev.append({"op": "date2utc", "s": proj.text(t), "form": form, "r": r})
        for _ in range(N(200, 3000)):          # any date object at all
            d = date.fromordinal(rng.randint(1, rng.choice([366 * 1000, date.max.toordinal()])))
            k, v = guard(P.date2str, d, form)
            ev.append({"op": "date2str", "a": [d.year, d.month, d.day], "form": form, "r": astext(k, v)})
            if form == "DTL" and k == "ok":
                k, r = call(P.date2utc, v, form)
                ev.append({"op": "date2utc", "s": proj.text(v), "form": form, "r": r})
    for _ in range(N(3000, 30000)):
        t = f"{rng.choice([0, 23, 24, 25, 99, rng.randint(0, 30)]):02d}{rng.choice([0, 59, 60, 61, 99]):02d}{rng.choice([0, 59, 60, 61, 62, 99]):02d}" if rng.random() < .5 else \
            f"{rng.randint(0, 23):02d}{rng.randint(0, 59):02d}{rng.randint(0, 59):02d}"
        dp = rng.randint(0, 7)
        if rng.random() < .15:              # too short, too long
            t = t[:rng.randint(0, 5)] if rng.random() < .7 else t + str(rng.randint(0, 99))
        t += f".{rng.randint(0, 10 ** dp - 1):0{dp}d}" if dp else rng.choice(["", "", "."])
        if t and rng.random() < .1:
            p = rng.randrange(len(t))
            t = t[:p] + rng.choice("x: -+Z") + t[p + 1:]
        k, r = call(P.time2utc, t)
        ev.append({"op": "time2utc", "s": proj.text(t), "r": r})
        a = [rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 999999)]
        k, v = guard(P.time2str, time(*a))
        ev.append({"op": "time2str", "a": a, "r": astext(k, v)})
    for t in ["", "x", "1", "12", "1234", "12345", "1234567", "12:34:56", "noon", "24", " ", "      ", "1048", "10481", "104812 ", " 10481", "1e3", "-1", "+12345", "123456.", "123456.1.2", "\x00\x00\x00\x00\x00\x00", "12345\u00e9"]:
        k, r = call(P.time2utc, t)
        ev.append({"op": "time2utc", "s": proj.text(t), "r": r})
    for what, fn, a in [(f.__name__, f, x) for f in (P.date2utc, P.time2utc) for x in (None, 12.5, 10124)] + [(f.__name__, f, x) for f in (P.date2str, P.time2str) for x in (None, "x", 5, "")]:
        k, r = call(fn, a)
        ev.append({"op": "empty", "what": what + " of " + repr(a), "r": r})
    chk.events(ev, label="texts")
    # through messages
    ev = []
    for t in ["", "000000", "235959.99", "240000", "126000.00", "12x456", "123456", "123456.7"]:
        ev.append(pev(S(f"GNGGA,{t},,,,,,,,,,,,,"))[0])
        for d in ["010124", "310224", "290224", "290223", "", "x", "311268", "010169"]:
            ev.append(pev(S(f"GNRMC,{t},A,,,,,,,{d},,,A"))[0])
    for t in ["01012024", "29022024", "29022023", "x", ""]:
        ev.append(pev(S(f"GNZDA,1,01,02,{t[-4:]},00,00"))[0])
    for m in gen.catalog():
        if any(el["k"] == "a" and el["t"] in ("DT", "DTL", "DM", "TM") for el in m.d):
            for _ in range(N(4, 40)):
                nt, tx = gen.fields_for(m, rng, 1, .1)
                ev.append(pev(S(gen.content(m, tx)), m.mode)[0])
                nt, kw = gen.kwargs_for(m, rng, 1, 1)
                ev.append(bev(m.talker, m.id, m.mode, gen.variant_kw(m, kw, nt, rng))[0])
    ok = re.compile(r"(value|b:field|rt|b:value):(DT|DTL|DM|TM):").match
    chk.events(ev, only=lambda c, e: bool(ok(c)) or broken(c), label="messages")
    return finish(chk, "model_checking")


# ------------------------------------------------------------------ GNSS time
def comps(d):
    d = d.astimezone(timezone.utc) if d.tzinfo else d
    return [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond]


ZONES = [timezone.utc, timezone(timedelta(hours=5, minutes=30)), timezone(timedelta(hours=-11)), timezone(timedelta(hours=14)), timezone(timedelta(minutes=-1))]
EPOCH = {"G": (1980, 1, 6), "J": (1980, 1, 6), "R": (1980, 1, 6), "E": (1999, 8, 22), "I": (1999, 8, 22), "C": (2006, 1, 1)}
ROLL = {"C": 8192, "E": 4096}


def forms(d, rng):
    """the same instant: aware UTC, naive (UTC is meant), in another zone"""
    return [d, d.replace(tzinfo=None), d.astimezone(rng.choice(ZONES))]


def mctime(chk, rng):
    week = (datetime.now(timezone.utc) - datetime(1980, 1, 6, tzinfo=timezone.utc)).days // 7
    r = mc(chk, "MCTime", {"week": week, "ticks": N(2, 4)}, "MCTime")
    chk.exhaustive["MCTime"] = f"UTC instants around every leap second, epoch, week and rollover boundary of six systems: {r.distinct} states"
    out = []
    for ln in r.lines:
        g, *x = re.findall(r'\w+|-?\d+', ln)
        d, ms, w, tow, off = map(int, x)
        out.append((g, DAY0 + timedelta(days=d, milliseconds=ms), w, tow, off))
    return out


def u2w(u, g, mod=None):
    kind, v = guard(P.utc2wnotow, u, g) if mod is None else guard(P.utc2wnotow, u, g, modwno=mod)
    if kind == "ok" and not (isinstance(v, tuple) and len(v) == 3 and all(isinstance(x, int) for x in v)):
        kind = "exc:badresult"
    return kind, v


def c22():
    chk, rng = Check("C22"), random.Random(core.SEED)
    for k, (g, u, w, tow, off) in enumerate(mctime(chk, rng)):
        chk.traces += 1
        x = forms(u, rng)[k % 3]
        R = ROLL.get(g, 1024)
        got = [u2w(x, g, False), u2w(x, g, True), u2w(x, g)]
        if got != [("ok", (w, tow, off)), ("ok", (w % R, tow, off)), ("ok", (w % R, tow, off))]:
            chk.violation(["utc2wnotow"], {"gnss": g, "utc": str(x), "expected": [w, tow, off], "got": str(got)})
        back = guard(P.wnotow2utc, w, tow, None, g, modwno=False)
        if back != ("ok", u) or (back[0] == "ok" and back[1].tzinfo is None):
            chk.violation(["wnotow2utc"], {"gnss": g, "wno": w, "tow": tow, "expected": str(u), "got": str(back)})
        if k % 2500 == 9:
            chk.sample({"gnss": g, "utc": str(u), "wno": w, "tow": tow, "ls": off})
    ev = []
    now = datetime.now(timezone.utc)
    for k in range(N(4000, 50000)):
        g = rng.choice("GECJIR")
        lo = datetime(*EPOCH[g], tzinfo=timezone.utc)
        if rng.random() < .2:       # before the epoch of the system, and before the table
            lo = datetime(rng.choice([2, 1900, 1960, 1971, 1972, 1975, 1979]), 1, 1, tzinfo=timezone.utc)
        u = lo + timedelta(milliseconds=rng.randint(0, int((datetime(rng.choice([2080, 2080, 2080, 2300, 9990]), 1, 1, tzinfo=timezone.utc) - lo).total_seconds() * 1000)))
        if rng.random() < .3:
            u = u.replace(microsecond=rng.randint(0, 999999))
        elif rng.random() < .3:
            u = lo + timedelta(weeks=(u - lo).days // 7) + timedelta(milliseconds=rng.randint(-30000, 30000))
            u = max(u, lo)
        x = rng.choice(forms(u, rng))
        mod = rng.random() < .5
        kind, v = u2w(x, g, mod)
        v = v if kind == "ok" else (0, 0, 0)
        ev.append({"op": "utc2wnotow", "a": comps(u), "g": g, "mod": mod, "kind": kind, "wno": v[0], "tow": v[1], "ls": v[2]})
        kind, v = u2w(x, g, False)
        if kind == "ok":
            kind, b = guard(P.wnotow2utc, v[0], v[1], rng.choice([None, v[2]]), g, modwno=False)
            ev.append({"op": "timert", "a": comps(u), "kind": kind, "r": comps(b) if kind == "ok" else [], "g": g})
        # any week and time of week
        w, tow, mod = rng.randint(rng.choice([0, 0, 0, -3000]), rng.choice([2600, 2600, 20000])), rng.choice([0, 1, -1, 604799999, 604800000, 999999999, rng.randint(0, 604799999)]), rng.random() < .5
        ls = rng.choice([None, None, None, None, 0, 18, -7, 1, 600])
        kind, b = guard(P.wnotow2utc, w, tow, ls, g, modwno=mod)
        ev.append({"op": "wnotow2utc", "wno": w, "tow": tow, "g": g, "mod": mod, "roll": False, "ls": 99 if ls is None else ls, "kind": kind, "r": comps(b) if kind == "ok" else []})
    chk.events(ev, label="instants")
    # automatic rollover, with the real clock and others
    chk.events(rollovers(rng, None, N(500, 5000)), label="rollover")
    chk.events(core.later("C22"), label="later")
    # no argument: now
    ev = []
    for g in "GECJIR":
        t0 = datetime.now(timezone.utc)
        v = guard(P.utc2wnotow, gnss=g, modwno=False)
        t1 = datetime.now(timezone.utc)
        ok = v[0] == "ok" and u2w(t0, g, False)[1][:2] <= v[1][:2] <= u2w(t1, g, False)[1][:2]
        ev.append(same(ok, True, "utc2wnotow of now", got=str(v)))
    chk.events(ev, label="now")
    return finish(chk, "model_checking")


def rollovers(rng, fake, n):
    ev = []
    for k in range(n):
        g = rng.choice("GECJIR")
        lo = datetime(*EPOCH[g], tzinfo=timezone.utc)
        now = fake or datetime.now(timezone.utc)
        R = ROLL.get(g, 1024)
        if now < lo:
            continue
        if rng.random() < .6:     # just before and after the boundary
            off = rng.choice([-60000, -20000, -18000, -9000, -5000, -3000, -2000, -1000, -500, 2000, 5000, 19000, 60000])
            kind, v = u2w(max(lo, now + timedelta(milliseconds=off)), g, True)
            if kind != "ok":
                continue
            w, tow = v[:2]
        else:
            w, tow = rng.randint(0, R - 1), rng.choice([0, 604799999, rng.randint(0, 604799999)])
        ls = rng.choice([None, None, None, 0, 18])
        t0 = fake or datetime.now(timezone.utc)
        mod = rng.random() < .8
        kind, b = guard(P.wnotow2utc, w, tow, ls, g, True, **({} if mod else {"modwno": False}))
        t1 = fake or datetime.now(timezone.utc)
        ev.append({"op": "wnotow2utc", "wno": w, "tow": tow, "g": g, "mod": mod, "roll": True, "ls": 99 if ls is None else ls, "kind": kind, "r": comps(b) if kind == "ok" else [],
                   "t0": comps(t0), "t1": comps(t1 if fake else t1 + timedelta(milliseconds=1))})
    return ev


def c23():
    chk, rng = Check("C23"), random.Random(core.SEED)
    for k, (g, u, w, tow, off) in enumerate(mctime(chk, rng)):
        if g == "R":
            continue
        chk.traces += 1
        for x in forms(u, rng):
            got = guard(P.leapsecond, x, g)
            if got != ("ok", off):
                chk.violation(["leapsecond"], {"gnss": g, "utc": str(x), "expected": off, "got": str(got)})
        if g == "G" and guard(P.leapsecond, u) != ("ok", off):
            chk.violation(["leapsecond:default"], {"utc": str(u), "expected": off})
    ev = []
    leaps = sorted({date(*map(int, m)) for m in re.findall(r"<<(\d{4}), (\d+), (\d+), \d+>>", open(os.path.join(core.SPEC, "GnssTime.tla")).read())})
    for d in leaps:
        for us in [-86400000000, -1000000, -1, 0, 1, 1000000, 86400000000]:
            u = datetime(d.year, d.month, d.day, tzinfo=timezone.utc) + timedelta(microseconds=us)
            for g in "GECJI":
                for x in forms(u, rng):
                    kind, v = guard(P.leapsecond, x, g)
                    ev.append({"op": "leap", "a": comps(u), "g": g, "kind": kind, "r": v if kind == "ok" and isinstance(v, int) else -999})
    step = 1 if core.thorough() else 29
    for n in [rng.randint(400, date(1972, 1, 1).toordinal()) for _ in range(N(200, 2000))] + list(range(date(1972, 1, 1).toordinal(), date(2060, 1, 1).toordinal(), step)):
        d = date.fromordinal(n)
        u = datetime(d.year, d.month, d.day, rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 999999), tzinfo=timezone.utc)
        g = rng.choice("GECJI")
        for x in rng.sample(forms(u, rng), 1):
            kind, v = guard(P.leapsecond, x, g)
            ev.append({"op": "leap", "a": comps(u), "g": g, "kind": kind, "r": v if kind == "ok" and isinstance(v, int) else -999})
    chk.events(ev, label="table")
    return finish(chk, "model_checking")


# ------------------------------------------------------------------ displayed coordinates
def c28():
    chk, rng = Check("C28"), random.Random(core.SEED)
    ev = []
    for att, lim in (("LA", 90), ("LN", 180)):
        for v in degrees(rng, N(1500, 25000), lim):
            for op, fn in (("deg2dmm", P.deg2dmm), ("deg2dms", P.deg2dms)):
                kind, s = guard(fn, v, att)
                ev.append({"op": op, "v": proj.val(v), "att": att, "r": astext(kind, s)})
                pair = guard(P.latlon2dmm if op == "deg2dmm" else P.latlon2dms, *((v, 1.5) if att == "LA" else (1.5, v)))
                other = fn(1.5, "LN" if att == "LA" else "LA")
                if k_eq(pair, s, other, att) is False:
                    ev.append(same(str(pair), str((s, other)), "latlon2 differs", v=v))
                if op == "deg2dms" and kind == "ok":
                    kind, r = call(P.dms2deg, s)
                    ev.append({"op": "dmsrt", "v": proj.val(v), "r": r})
    # degrees, minutes, seconds as people write them
    for _ in range(N(1500, 20000)):
        d, m = rng.randint(0, 179), rng.choice([0, 59, rng.randint(0, 59)])
        s = rng.choice(["0", "0.0", "59.99999", f"{rng.randint(0, 59)}", f"{rng.randint(0, 59)}.{rng.randint(0, 99999)}"])
        h = rng.choice(["N", "S", "E", "W", ""])
        a, b, c = rng.choice([("\u00b0", "\u2032", "\u2033"), ("\u00b0", "'", '"'), ("d", "m", "s"), (":", ":", ":")])
        sp = rng.choice(["", " "])
        k = rng.random()
        if k < .6:
            t, mm, ss = f"{d}{a}{sp}{m}{b}{sp}{s}{c}{sp}{h}", m, s
        elif k < .8:
            t, mm, ss = f"{d}{a}{sp}{m}{b}{sp}{h}", m, "0"
        else:
            t, mm, ss = f"{d}{a}{sp}{h}", 0, "0"
        kind, r = call(P.dms2deg, t)
        ev.append({"op": "dms2deg", "d": proj.text(str(d)), "m": proj.text(str(mm)), "s": proj.text(ss), "h": h, "r": r, "text": t})
    for t in ["", "x", "N", "51", "51.5", "N51°", "51°20′45″Q", "51°20′45″NN", "51°20′45″7″N", "°′″N", "-51°20′N", "51°20′45″N "[:-1] + "x"]:
        kind, r = call(P.dms2deg, t)
        if t not in ("51°20′45″Q",):
            ev.append({"op": "kind", "what": "dms2deg of " + t, "kind": kind, "allowed": ["exc:ValueError"]})
    for _ in range(N(2000, 20000)):
        lat = rng.choice(degrees(rng, 4, 90))
        lon = rng.choice(degrees(rng, 4, 180))
        alt = rng.choice([0, 0.0, -0.0, 8850, -430.5, rng.uniform(-500, 9000), rng.randint(-500, 9000), 1e-7, -1e-7, 1e16, 123456789.125, round(rng.uniform(-10, 10), 3)])
        crs = rng.choice([None, "WGS_84", "WGS_84", "EPSG4326", ""])
        kind, s = guard(P.llh2iso6709, lat, lon, alt) if crs is None else guard(P.llh2iso6709, lat, lon, alt, crs)
        ev.append({"op": "iso6709", "lat": proj.val(lat), "lon": proj.val(lon), "alt": proj.val(alt), "crs": proj.text("WGS_84" if crs is None else crs), "r": astext(kind, s)})
    for v in ("", "x", None):
        for fn in (P.deg2dmm, P.deg2dms):
            k, r = call(fn, v, "LA")
            ev.append({"op": "empty", "what": fn.__name__ + " of " + repr(v), "r": r})
    chk.events(ev, only=lambda c, e: not c.startswith("empty"), label="texts")
    return finish(chk, "model_checking")


def k_eq(pair, s, other, att):
    return pair == ("ok", (s, other) if att == "LA" else (other, s))


# ------------------------------------------------------------------ descriptions, parts, hex
def c29():
    chk, rng = Check("C29"), random.Random(core.SEED)
    ev = []
    ids = list(gen.D["ids"]) + list(gen.D["idsprop"])
    others = ["", "X", "GLLX", "gll", "UBX", "UBX99", "GLL ", " GLL", "None", "ZZZ", "QTM", "0"] + [i + "Q" for i in ids[:50]] + [i[1:] for i in ids[:50]] + [i.lower() for i in ids]
    others += [f(i) for i in ids for f in rng.sample([lambda i: i + "_", lambda i: i + " ", lambda i: " " + i, lambda i: i + "0", lambda i: "P" + i, lambda i: "GN" + i, lambda i: i[:-1], lambda i: i.title(), lambda i: i.swapcase(),
                                                      lambda i: i + "\n", lambda i: "$" + i, lambda i: i + ",", lambda i: i + i, lambda i: i[::-1], lambda i: i + "_GET", lambda i: "_" + i], N(4, 16))]
    for i in ids + others + ["".join(rng.choice(gen.ALNUM) for _ in range(rng.randint(1, 10))) for _ in range(N(300, 3000))]:
        kind, v = guard(P.msgdesc, i)
        ev.append({"op": "msgdesc", "id": proj.text(i), "r": astext(kind, v)})
    cat = gen.catalog()
    cases = []
    for m in cat:
        for _ in range(N(2, 10)):
            cases.append(S(gen.content(m, gen.fields_for(m, rng, rng.randint(0, 3), .1)[1]), rng.choice([None, "00", "", "zz"])))
    from checks_msg import NASTY, mutate
    for _ in range(N(1500, 20000)):
        cases.append(mutate(rng.choice(cases[:500]), rng))
    cases += [b"", b"*", b"$", b"$*", b"$*00", b"GPGLL,1*00", b"$P*50\r\n", b"$G*47\r\n", b"$,*2C\r\n", b"$GPGLL\r\n", b"\xff*", b"$GPGLL,1*", b"$GP,*00\r\n", b"\r\n", b"$GPGLL,a*b*c\r\n", b"$$$GPGLL*00\n", "$GNTXT,é,€*00\r\n".encode()]
    for raw in cases:
        for form in (raw, None):
            if form is None:
                try:
                    form = raw.decode("utf-8")
                except UnicodeDecodeError:
                    continue
                if rng.random() < .5:
                    continue
            kind, v = guard(P.get_parts, form)
            e = {"op": "parts", "msg": list(raw), "kind": kind}
            if kind == "ok":
                c, tk, mid, pl, ck = v
                e.update(content=proj.text(c), talker=proj.text(tk), id=proj.text(mid), pl=[proj.text(x) for x in pl], ck=proj.text(ck))
                ev.append(same(",".join([tk + mid, *pl]), c, "parts rejoined", msg=c))
            ev.append(e)
    for _ in range(N(1500, 20000)):
        n = rng.choice([0, 1, 9, 10, 15, 16, 255, 256, rng.randint(0, 2**16), rng.randint(0, 2**64)])
        n = -n if rng.random() < .2 else n
        w = rng.choice([0, 0, 1, 2, 3, 4, 8, 9, 10, 16, rng.randint(0, 30)])
        kind, v = guard(P.hex2str, n, w) if w or rng.random() < .5 else guard(P.hex2str, n)
        ev.append({"op": "hex2str", "neg": int(n < 0), "n": [int(x) for x in str(abs(n))] if n else [], "w": w, "r": astext(kind, v)})
    for n in range(-40, 300):
        for w in (0, 1, 2, 3, 4):
            kind, v = guard(P.hex2str, n, w)
            ev.append({"op": "hex2str", "neg": int(n < 0), "n": [int(x) for x in str(abs(n))] if n else [], "w": w, "r": astext(kind, v)})
    chk.events(ev, label="helpers")
    return finish(chk, "model_checking")
