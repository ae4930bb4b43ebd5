"""Projection of values and messages of the implementation to the specification's terms."""
from datetime import date, datetime, time
from decimal import Decimal

import core
from core import guard
import pynmeagps as P
from pynmeagps import NMEAMessage, NMEAReader, SocketWrapper

_R, _G = ("radius", 6378.137), ("gnss", "G")
_PTS = [("lat1",), ("lon1",), ("lat2",), ("lon2",)]
_ELL = [("a", 6378137.0), ("f", 298.257223563)]
for _f, _p in {
    NMEAReader.parse: [("message",), ("msgmode", 0), ("validate", 1), ("userdefined", None)],
    NMEAMessage: [("talker",), ("msgID",), ("msgmode",), ("hpnmeamode", False), ("validate", 1), ("userdefined", None), ("checksum", None)],
    NMEAReader: [("stream",), ("msgmode", 0), ("validate", 1), ("nmeaonly", False), ("quitonerror", 1), ("bufsize", 4096),
                 ("errorhandler", None), ("userdefined", None), ("encoding", 0)],
    SocketWrapper: [("sock",), ("encoding", 0), ("bufsize", 4096)],
    NMEAMessage.str2val: [("vals",), ("att",)],
    NMEAMessage.val2str: [("val",), ("att",), ("hpmode", False)],
    NMEAMessage.nomval: [("att",), ("msgmode", 0)],
    P.area: _PTS + [_R], P.haversine: _PTS + [_R], P.bearing: _PTS, P.planar: _PTS + [("radius", 6378137.0)],
    P.date2str: [("dat",), ("form", "DT")], P.date2utc: [("dates",), ("form", "DT")], P.time2str: [("tim",)], P.time2utc: [("times",)],
    P.ddd2dmm: [("degrees",), ("att",), ("hpmode", False)], P.deg2dmm: [("degrees",), ("att",)], P.deg2dms: [("degrees",), ("att",)],
    P.dmm2ddd: [("pos",)], P.dms2deg: [("dmsstr",), ("rnd", 7)], P.latlon2dmm: [("lat",), ("lon",)], P.latlon2dms: [("lat",), ("lon",)],
    P.llh2iso6709: [("lat",), ("lon",), ("alt",), ("crs", "WGS_84")],
    P.llh2ecef: [("lat",), ("lon",), ("height",)] + _ELL, P.ecef2llh: [("x",), ("y",), ("z",)] + _ELL,
    P.calc_checksum: [("content",)], P.generate_checksum: [("talker",), ("msgID",), ("payload",)], P.get_parts: [("message",)],
    P.hex2str: [("num",), ("padding", 0)], P.knots2spd: [("knots",), ("unit", "MS")], P.msgdesc: [("msgID",)],
    P.leapsecond: [("dat",), _G], P.utc2wnotow: [("utc", None), _G, ("modwno", True)],
    P.wnotow2utc: [("wno",), ("tow",), ("ls", None), _G, ("autoroll", False), ("modwno", True)],
}.items():
    core.FORMS[_f] = _p


def text(s):
    return [ord(c) for c in s]


def untext(t):
    return "".join(map(chr, t))


def dec(v):
    """number -> sign, digits, exponent of its shortest decimal form"""
    s, g, e = Decimal(repr(v)).as_tuple()
    return {"n": s, "g": list(g), "e": e}


def val(v):
    if isinstance(v, bool) or v is None:
        return {"t": "o", "x": repr(v)}
    if isinstance(v, str):
        return {"t": "s", "s": text(v)}
    if isinstance(v, int):
        return {"t": "i", **dec(v)}
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return {"t": "f", "n": int(v < 0), "g": [9] * 20, "e": 290}
        return {"t": "f", **dec(v)}
    if isinstance(v, datetime):
        return {"t": "o", "x": "datetime"}
    if isinstance(v, date):
        return {"t": "d", "a": [v.year, v.month, v.day]}
    if isinstance(v, time):
        if v.tzinfo is not None:
            return {"t": "o", "x": "aware time"}
        return {"t": "t", "a": [v.hour, v.minute, v.second, v.microsecond]}
    return {"t": "o", "x": type(v).__name__}


def attrs(m):
    """public attributes of a message, by name"""
    cls = set(dir(type(m)))
    return [{"n": n, "v": val(getattr(m, n)), "x": text(str(getattr(m, n)))} for n in dir(m) if n[0] != "_" and n not in cls]


def msg(m):
    return {"talker": text(m.talker), "id": text(m.msgID), "mode": m.msgmode, "ident": text(m.identity),
            "pl": [text(f) for f in m.payload], "ck": text(str(m.checksum)), "at": attrs(m), "ser": list(m.serialize()), "str": text(str(m))}


def result(fn, *a, limit=10.0, **k):
    """Call fn and project its outcome: {kind, m}"""
    kind, v = guard(fn, *a, limit=limit, **k)
    if kind != "ok":
        return {"kind": kind}, None
    if v is None:
        return {"kind": "none"}, None
    kind, p = guard(msg, v)
    if kind != "ok":
        return {"kind": "exc:project:" + kind}, v
    return {"kind": "msg", "m": p}, v
