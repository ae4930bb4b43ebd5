"""C30: geodetic helpers judged with exact fixed-point trigonometry (spec/Geo.tla)."""
import math
import random

import core
import proj
from checks_help import N, call, finish
from core import Check, guard
import pynmeagps.nmeahelpers as P
from pynmeagps.nmeatypes_core import WGS84_FLATTENING, WGS84_SMAJ_AXIS

R = 6378.137


def nums(*a):
    return [proj.val(x) for x in a]


def tup(kind, v):
    return nums(*v) if kind == "ok" and isinstance(v, (tuple, list)) else [{"t": "o", "x": kind}]


def place(rng):
    lat = rng.choice([rng.uniform(-90, 90), round(rng.uniform(-90, 90), rng.randint(0, 7)), rng.choice([0, 0.0, 90, -90, 45, -45, 89.9999999, -89.9999999, 1e-9, 30, 60])])
    lon = rng.choice([rng.uniform(-180, 180), round(rng.uniform(-180, 180), rng.randint(0, 7)), rng.choice([0, 0.0, 180, -180, 90, -90, 179.9999999, -179.9999999, -1e-9, 1e-9])])
    return lat, lon


def corners(rng, n):
    """pairs of special positions, as integers and floats"""
    at = [(a, b) for a in (-90, -45, 0, 30, 45, 90) for b in (-180, -90, 0, 45, 90, 180)]
    al = [(a, b) for a in at for b in at]
    for a, b in rng.sample(al, min(n, len(al))):
        yield rng.choice([a, tuple(map(float, a))]), rng.choice([b, tuple(map(float, b))])


def pairs(rng, n):
    yield from corners(rng, n // 3)
    for _ in range(n):
        a = place(rng)
        k = rng.random()
        if k < .45:
            b = place(rng)
        elif k < .6:                       # close together
            s = 10.0 ** -rng.randint(1, 9)
            b = (max(-90, min(90, a[0] + rng.uniform(-s, s))), max(-180, min(180, a[1] + rng.uniform(-s, s))))
        elif k < .7:                       # the same point, meridian or parallel
            b = rng.choice([a, (a[0], place(rng)[1]), (place(rng)[0], a[1])])
        elif k < .9:                       # antipodes, and nearly
            s = rng.choice([0, 0, 1e-12, 1e-9, 1e-6])
            b = (max(-90, min(90, -a[0] + s)), a[1] - 180 if a[1] > 0 else a[1] + 180)
        else:                              # across the date line or a pole
            b = (a[0], -a[1]) if rng.random() < .5 else (-a[0], a[1])
        yield a, b


def c30():
    chk, rng = Check("C30"), random.Random(core.SEED)
    ev = []
    for a, b in pairs(rng, N(700, 12000)):
        args = nums(*a, *b)
        for fn, unit in ((P.haversine, 1), (P.planar, 1000), (P.bearing, 0), (P.area, 1)):
            r = rng.choice([None, None, 1, 6371.0, 1737.4, 0.5])
            if not unit or r is None:
                kind, v = call(fn, *a, *b)
                r = R * unit
            else:
                kind, v = call(fn, *a, *b, r)
            ev.append({"op": fn.__name__, "a": args, "radius": proj.val(r), "r": v})
    for _ in range(N(900, 15000)):
        lat, lon = place(rng)
        h = rng.choice([0, 0.0, rng.uniform(-12000, 9000), rng.uniform(-500, 500), rng.uniform(9000, 4e7), rng.uniform(-3e6, -12000), rng.uniform(4e7, 1e9), 20200000])
        a, f = rng.choice([None, None, None, (6378137.0, 298.257222101), (6377563.396, 299.3249646), (6378388.0, 297.0), (3396190.0, 169.894447223612), (1000.0, 298.257223563)]) or (WGS84_SMAJ_AXIS, WGS84_FLATTENING)
        std = (a, f) == (WGS84_SMAJ_AXIS, WGS84_FLATTENING)
        if not std:
            h = rng.uniform(-.002, 3) * a
        opt = () if std and rng.random() < .7 else (a, f)
        kind, x = guard(P.llh2ecef, lat, lon, h, *opt)
        ev.append({"op": "llh2ecef", "a": nums(lat, lon, h), "major": proj.val(a), "flat": proj.val(f), "r": tup(kind, x)})
        if not std and a < 1e6:
            continue                       # results below 100 km from the centre are nominal
        if kind == "ok":
            kind, y = guard(P.ecef2llh, *x, *opt)
            ev.append({"op": "ecef2llh", "a": nums(*x), "major": proj.val(a), "flat": proj.val(f), "r": tup(kind, y)})
            ev.append({"op": "llhrt", "a": nums(lat, lon, h), "major": proj.val(a), "r": tup(kind, y)})
    for _ in range(N(500, 5000)):          # points in space, on the axes and planes
        r = rng.choice([6378137.0, 6356752.314245179, 2.66e7, 4.2e7, rng.uniform(3.5e6, 1e8)])
        u = [rng.choice([0, 0.0, -0.0, 1, -1, rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-1, 1) * 1e-9]) for _ in range(3)]
        m = math.sqrt(sum(c * c for c in u))
        if m < 1e-6:
            continue
        x = [c / m * r for c in u]
        kind, y = guard(P.ecef2llh, *x)
        ev.append({"op": "ecef2llh", "a": nums(*x), "major": proj.val(WGS84_SMAJ_AXIS), "flat": proj.val(WGS84_FLATTENING), "r": tup(kind, y)})
    for _ in range(N(200, 2000)):
        k = rng.choice([0, 1, -1, rng.randint(0, 1000), rng.uniform(0, 1000), rng.uniform(-1, 1), 1e6])
        u, c = rng.choice([("MS", 0.5144447324), ("FS", 1.68781084), ("MPH", 1.15078), ("KMPH", 1.852001)])
        kind, v = call(P.knots2spd, k, rng.choice([u, u.lower(), u.title()])) if u != "MS" or rng.random() < .5 else call(P.knots2spd, k)
        ev.append({"op": "knots", "k": proj.val(k), "c": proj.val(c), "r": v})
    near = [f(u) for u in ("MS", "FS", "MPH", "KMPH") for f in (lambda u: " " + u, lambda u: u + " ", lambda u: u[:-1], lambda u: u[1:], lambda u: u + "S", lambda u: u + u, lambda u: u[::-1])]
    near = [u for u in near if u not in ("MS", "FS", "MPH", "KMPH")]
    for k, u in [(1, "XX"), (1, ""), (1.0, "KNOTS"), (5, "M S"), (2, "M/S"), (2, "KPH"), (2, "F")] + [(rng.choice([1, 0, 2.5]), u) for u in near]:
        kind, v = call(P.knots2spd, k, u)
        ev.append({"op": "kind", "what": f"knots2spd({k}, {u!r})", "kind": kind, "allowed": ["exc:KeyError"]})
    for k in ("x", "", None, [1]):
        kind, v = call(P.knots2spd, k)
        ev.append({"op": "kind", "what": f"knots2spd({k!r})", "kind": kind, "allowed": ["exc:TypeError"]})
    chk.events(ev, label="geodesy")
    return finish(chk, "model_checking")
