"""Recording runs of the real reader over scripted streams."""
import io, logging, re, socket, ssl

import core, gen, proj
from core import guard
from pynmeagps import NMEAReader
from pynmeagps.nmeareader import NMEAReader as _R  # noqa: F401

FRAME = re.compile(rb"\$[" + bytes(sorted({ord(t[0]) for t in gen.D["talkers"]})) + rb"][^\n]*\n")


def frames(d):
    """framed sentences of a file (the same declarative reading as Frames of Reader.tla)"""
    return [m.group() for m in FRAME.finditer(d)]


class LogTap(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.n = []

    def emit(self, record):
        a = record.args[0] if record.args and isinstance(record.args, tuple) else record.msg
        self.n.append(type(a).__name__)


class ByteStream:
    """Minimal read/readline stream (no seek), like a serial port."""

    def __init__(self, d):
        self.d, self.p = d, 0

    def read(self, n=1):
        r = self.d[self.p:self.p + n]
        self.p += len(r)
        return r

    def readline(self):
        e = self.d.find(b"\n", self.p)
        e = len(self.d) if e < 0 else e + 1
        r = self.d[self.p:e]
        self.p = e
        return r


class GapStream:
    """A serial port or growing file: at each gap the data ends for one call, then goes on."""

    def __init__(self, d, av):
        self.d, self.av, self.p, self.k, self.end = d, list(av), 0, 0, 0

    def ready(self, p):
        """bytes up to p available (else the gap met is used up)"""
        while self.end < p:
            if self.k == len(self.av):
                return False
            self.k += 1
            if self.av[self.k - 1] < 0:
                return False
            self.end = self.av[self.k - 1]
        return True

    def read(self, n=1):
        self.ready(self.p + n)
        r = self.d[self.p:min(self.p + n, self.end)]
        self.p += len(r)
        return r

    def readline(self):
        e = self.d.find(b"\n", self.p) + 1
        self.ready(e or len(self.d) + 1)
        r = self.d[self.p:min(e or len(self.d), self.end)]
        self.p += len(r)
        return r


def gaps(rng, d, n):
    """availability script with about n gaps"""
    av = []
    for p in sorted(rng.randrange(len(d) + 1) for _ in range(n)):
        av += [p] * (p > max(av, default=0)) + [-1] * rng.choice([1, 1, 2])
    return av + [len(d)] * (len(d) > max(av, default=0))


FAILURES = {"error": ConnectionResetError, "oserror": OSError, "block": BlockingIOError, "intr": InterruptedError, "pipe": BrokenPipeError,
            "want": ssl.SSLWantReadError, "ssl": ssl.SSLError, "abort": ConnectionAbortedError}


class ScriptedSocket(socket.socket):
    """A socket whose recv returns scripted segments: bytes, 'timeout', 'close' or a name of FAILURES."""

    def __init__(self, script):
        super().__init__(socket.AF_INET, socket.SOCK_STREAM)
        self.script, self.calls, self.sizes = list(script), 0, []

    def recv(self, n, *a):
        self.calls += 1
        self.sizes.append(n)
        if not self.script:
            return b""
        s = self.script[0]
        if isinstance(s, str):
            self.script.pop(0)
            if s == "timeout":
                raise TimeoutError("timed out")
            if s == "close":
                return b""
            raise FAILURES[s](11 if s == "block" else 104, "scripted")
        r, rest = s[:n], s[n:]
        if rest:
            self.script[0] = rest
        else:
            self.script.pop(0)
        return r

    def recv_into(self, buf, n=0, *a):
        r = self.recv(n or len(buf))
        buf[:len(r)] = r
        return len(r)


err_class = ValueError


def options(quit=1, nmeaonly=False, handler=True, mode=0, val=1, ud=0, **more):
    return {"quit": quit, "nmeaonly": nmeaonly, "handler": handler, "mode": mode, "val": val, "ud": ud, **more}


class Falsy:
    """a callable that is false as a truth value"""

    def __init__(self, f):
        self.f = f

    def __call__(self, err):
        return self.f(err)

    def __len__(self):
        return 0


class Boom(Exception):
    """raised by an error handler"""


class Session:
    """One reader under observation; items are what its caller sees."""
    count = 0

    def __init__(self, stream, o, udt=None, iterate=False, **kw):
        self.o, self.items, self.iterate = o, [], iterate
        self.ends = 0

        def handler(err):
            self.items.append({"x": "err", "k": type(err).__name__, "via": "h"})
            if o.get("boom"):
                raise Boom("handler")
            return answer
        Session.count += 1
        answer = (None, True, False, 0, 2, b"", b"$GPHDT,1,T*00\r\n", "x", (None, None), err_class)[Session.count % 10]
        hd = Falsy(handler) if Session.count % 3 == 0 else handler
        self.r, self.use = None, None      # use(reader) -> further observations after a call
        self.make = lambda s: guard(NMEAReader, s, msgmode=o["mode"], validate=o["val"], nmeaonly=o["nmeaonly"], quitonerror=o["quit"],
                        errorhandler=hd if o["handler"] else None, userdefined=udt, **kw)
        kind, v = self.make(stream)
        if kind != "ok":
            self.items.append({"x": "raise", "k": kind})
        else:
            self.r = v

    def call(self):
        """one read() (or next()); returns the raw bytes of a pair, else None"""
        tap = LogTap()
        lg = logging.getLogger("pynmeagps")
        root = logging.getLogger()
        lg.addHandler(tap)
        try:
            kind, v = guard(next, self.r) if self.iterate else guard(self.r.read)
        finally:
            lg.removeHandler(tap)
        _ = root
        for k in tap.n:
            self.items.append({"x": "err", "k": k, "via": "l"})
        n = len(self.items)
        raw = self.outcome(kind, v)
        if self.use and len(self.items) > n:
            self.items[-1].update(self.use(self.r))
        return raw

    def outcome(self, kind, v):
        if kind == "exc:StopIteration" or (kind == "ok" and v == (None, None)):
            self.items.append({"x": "end"})
            self.ends += 1
            return None
        if kind != "ok":
            self.items.append({"x": "raise", "k": kind})
            return None
        if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], (bytes, bytearray))):
            self.items.append({"x": "raise", "k": "exc:badresult"})
            return None
        raw, parsed = v
        if parsed is None:
            res = {"kind": "none"}
        else:
            res, _ = proj.result(lambda: parsed)
        self.items.append({"x": "pair", "raw": list(raw), "r": res})
        return raw

    def run(self, ends, limit):
        while self.r is not None and self.ends < ends and len(self.items) < limit:
            self.call()
            if self.items and self.items[-1].get("k") == "hang":
                break
        return self.items


def alone(raw, o, udt=None):
    res, _ = proj.result(NMEAReader.parse, raw, msgmode=o["mode"], validate=o["val"], userdefined=udt)
    return res


def gap_run(d, av, o, iterate=False):
    """a stream that runs dry and goes on"""
    s = Session(GapStream(d, av), o, None, iterate)
    s.run(av.count(-1) + 3, len(d) + len(av) + 10)
    return {"d": list(d), "av": av, "o": o, "items": s.items, "al": []}


def file_run(d, o, udt=None, iterate=False, stream=None, al=True):
    s = Session((stream or io.BytesIO)(d), o, udt, iterate)
    s.run(3, len(d) + 10)
    return {"d": list(d), "o": o, "items": s.items,
            "al": [alone(f, o, udt) for f in frames(d)] if al else []}


def judge_runs(runs, uds=(), workers=8, timeout=840):
    """Validate runs against TraceReader.tla; returns (list of (item index, verdict), TlcRun)."""
    import json, os, time
    path = os.path.join(core.tmpdir(), f"runs_{time.time_ns()}.json")
    with open(path, "w") as f:
        json.dump({"runs": runs, "uds": list(uds) or [{"ZZZ": []}]}, f, separators=(",", ":"))
    r = core.tlc("TraceReader", env={"TRACE": path}, workers=workers, timeout=timeout)
    os.unlink(path)
    out = [None] * len(runs)
    for ln in r.lines:
        t, i, v = ln.split("|", 2)
        out[int(t) - 1] = (int(i), v)
    if any(v is None for v in out):
        raise core.MachineryError("missing run verdicts")
    return out, r
