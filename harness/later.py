"""later.py <C13|C22|C32> <out>: the library in a process whose clock is set by hand - it is imported at one moment and used at others"""
import datetime as D
import json
import random
import sys
import time as T

sys.dont_write_bytecode = True
UTC = D.timezone.utc
NOW = [D.datetime(2023, 12, 30, 21, 5, 7, 120000, tzinfo=UTC)]       # the moment of the import
_date, _datetime = D.date, D.datetime


class _Kind(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.__bases__[0])

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.__bases__[0])


class datetime(_datetime, metaclass=_Kind):
    @classmethod
    def now(cls, tz=None):
        n = NOW[0].astimezone(tz) if tz else NOW[0].astimezone().replace(tzinfo=None)
        return _datetime(n.year, n.month, n.day, n.hour, n.minute, n.second, n.microsecond, n.tzinfo)

    @classmethod
    def utcnow(cls):
        return NOW[0].replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


class date(_date, metaclass=_Kind):
    @classmethod
    def today(cls):
        return datetime.now().date()


def _default(f):
    return lambda s=None: f(T.time() if s is None else s)


D.datetime, D.date = datetime, date
T.time, T.time_ns = lambda: NOW[0].timestamp(), lambda: int(NOW[0].timestamp() * 1000000) * 1000
T.gmtime, T.localtime, _strftime = _default(T.gmtime), _default(T.localtime), T.strftime
T.strftime = lambda f, t=None: _strftime(f, T.localtime() if t is None else t)


def clocks(rng, n):
    """other moments: soon after, the day after, other years, just around midnight, earlier than before"""
    out = [D.timedelta(seconds=61), D.timedelta(hours=3), D.timedelta(days=1), D.timedelta(days=2), D.timedelta(days=400), D.timedelta(days=1, seconds=2)]
    out = [NOW[0] + d for d in out] + [_datetime(2024, 2, 29, 23, 59, 59, 999999, tzinfo=UTC), _datetime(2024, 3, 1, tzinfo=UTC), _datetime(2016, 12, 31, 23, 59, 59, tzinfo=UTC), _datetime(2017, 1, 1, tzinfo=UTC)]
    while len(out) < n:
        out.append(_datetime(rng.randint(1995, 2060), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 999) * 1000, tzinfo=UTC))
    return out


def main(prop, out):
    import core
    rng = random.Random(core.SEED)
    ev = []
    if prop == "C13":
        import checks_msg as m
        dated = [x for x in m.catalog() if any(t in ("DT", "DTL", "DM", "TM") for _, t in m.gen.kwargs_for(x, rng, 1, 1)[0])]
        for now in clocks(rng, m.N(14, 60)):
            NOW[0] = now
            ev += m.sets(None, rng, 1, rng.sample(dated, min(len(dated), m.N(8, 40)))) + m.sets(None, rng, 2, rng.sample(dated, min(len(dated), m.N(8, 40))))[1::2]
    if prop == "C32":
        import checks_use as u
        for now in clocks(rng, u.N(14, 60)):
            NOW[0] = now
            ev += u.nominals(("TM", "DT", "DTL", "DM"))
    if prop == "C22":
        import checks_help as h
        for k, now in enumerate(clocks(rng, h.N(20, 100))):
            NOW[0] = now
            ev += h.rollovers(rng, now, h.N(80, 500))
            for g in "GECJIR":
                if now < _datetime(*h.EPOCH[g], tzinfo=UTC):
                    continue
                for mod in (None, True, False):
                    kind, v = h.u2w(None, g, mod) if k % 2 else (h.guard(h.P.utc2wnotow, gnss=g) if mod is None else h.guard(h.P.utc2wnotow, gnss=g, modwno=mod))
                    v = v if kind == "ok" else (0, 0, 0)
                    ev.append({"op": "utc2wnotow", "a": h.comps(now), "g": g, "mod": mod is not False, "kind": kind, "wno": v[0], "tow": v[1], "ls": v[2]})
    json.dump(ev, open(out, "w"))
    core.cleanup()


if __name__ == "__main__":
    main(*sys.argv[1:])
