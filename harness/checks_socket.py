"""C07-C10: the socket wrapper and readers on sockets."""
import gzip, io, json, os, random, socket, threading, zlib

import core, gen, runs
from core import Check, finish, guard, tlc
from checks_stream import HDT, N, S, any_sentence, flat, junk
from pynmeagps import NMEAReader
from pynmeagps.socketwrapper import SocketWrapper
from runs import ScriptedSocket

H1 = S("GPHDT,1,T")
FAILS = ["timeout", "close", "error", "oserror", "block", "want", "timeout", "abort", "intr", "ssl", "pipe"]


class Recorder:
    """recv of a scripted socket, recorded as the specification's script"""


class Sock(ScriptedSocket):
    def __init__(self, script):
        super().__init__(script)
        self.log = []

    def recv(self, n, *a):
        pending = bool(self.script)
        try:
            r = super().recv(n, *a)
        except OSError:
            self.log.append(-1)
            raise
        if r or pending:           # nothing received although more was to come: "close"
            self.log.append(len(r) or -1)
        return r

    def rest(self):
        """what was never received, as further script"""
        return [len(x) if isinstance(x, bytes) else -1 for x in self.script]


def cut(wire, script, k=0):
    """byte lengths / -1 -> scripted segments; failing receives are of the k-th, k+1st, ... kind"""
    out, w = [], 0
    for n in script:
        if n == -1:
            out.append(FAILS[k % len(FAILS)])
            k += 1
        else:
            out.append(wire[w:w + n])
            w += n
    return out


# ------------------------------------------------------------------ models
def mc_socket(chk, cases, calls, fails, label, live=False):
    cfg = {"cases": [{"bodies": [list(b) for b in c[0]], "chunked": c[1], "raw": list(c[2])} for c in cases], "calls": calls, "fails": fails}
    path = os.path.join(core.tmpdir(), "mc.json")
    json.dump(cfg, open(path, "w"))
    r = chk.tlc(tlc("MCSocket", env={"MC": path}), label)
    chk.exhaustive[label] = f"{len(cases)} wires, every segmentation, <= {fails} failing receives anywhere, call patterns {calls}: {r.distinct} states"
    if live:
        cfg.update(cases=cfg["cases"][:1], calls=calls[:1])
        json.dump(cfg, open(path, "w"))
        chk.tlc(tlc("MCSocket", "MCSocketLive", env={"MC": path}), label + "-liveness")
    return [json.loads(x) for x in r.lines]


def wire_of(c):
    return b"".join(b"%X\r\n" % len(b) + b + b"\r\n" for b in c[0]) + c[2] if c[1] else c[2]


def replay_socket(chk, behaviours, cases, label, enc=None, codec=None, bufsizes=(4096,)):
    """Replay behaviours of MCSocket into SocketWrapper."""
    wires = [wire_of(c) if codec is None else codec(c) for c in cases]
    plain = [b"".join(c[0]) if c[1] else c[2] for c in cases]
    n = 0
    for b in behaviours:
        ci = b["c"] - 1
        d = plain[ci]
        sk = ScriptedSocket(cut(wires[ci], b["s"], n))
        kind, w = guard(SocketWrapper, sk, encoding=(1 if cases[ci][1] else 0) if enc is None else enc, bufsize=bufsizes[n % len(bufsizes)])
        got = []
        bad = "" if kind == "ok" else "kind:" + kind
        for r in b["r"]:
            if bad:
                break
            kind, v = guard(w.readline) if r["op"] == 0 else guard(w.read, r["op"])
            if kind != "ok":
                bad = "kind:" + kind
                break
            got.append(bytes(v))
            if bytes(v) != d[r["f"] - 1:r["t"]]:
                bad = "line" if r["op"] == 0 else "read"
        if bad:
            chk.violation([bad], {"model": label, "wire": wires[ci].decode("latin-1"), "script": b["s"], "calls": [r["op"] for r in b["r"]],
                                  "expected": [d[r["f"] - 1:r["t"]].decode("latin-1") for r in b["r"]], "got": [g.decode("latin-1") for g in got]})
        n += 1
        if n % max(1, len(behaviours) // 3) == 1:
            chk.sample({"wire": wires[ci].decode("latin-1"), "script": b["s"], "results": b["r"]})
        sk.close()
    chk.traces += n
    chk.notes.setdefault("replayed", {})[label] = n


def mc_stack(chk, cases, segs, fails, label, live=False):
    """cases: (bodies, chunked, raw[, decoded bodies]); the whole stack over every cutting of the wire"""
    cfg = {"cases": [{"bodies": [list(b) for b in c[0]], "chunked": c[1], "raw": list(c[2]), "codec": [list(b) for b in c[3]] if len(c) > 3 else []} for c in cases],
           "segs": segs, "fails": fails}
    path = os.path.join(core.tmpdir(), "mc.json")
    json.dump(cfg, open(path, "w"))
    r = chk.tlc(tlc("MCStack", env={"MC": path}), label)
    chk.exhaustive[label] = f"reader over wrapper over {len(cases)} wires: every cutting into <= {segs} segments, <= {fails} failing receives anywhere: {r.distinct} states"
    if live:
        cfg.update(cases=cfg["cases"][:1], segs=2, fails=min(fails, 1))
        json.dump(cfg, open(path, "w"))
        chk.tlc(tlc("MCStack", "MCStackLive", env={"MC": path}), label + "-liveness")
    return [json.loads(x) for x in r.lines]


def replay_stack(chk, behaviours, cases, label, enc=0, bufsizes=(4096, 5, 1), limit=None):
    """Replay behaviours of MCStack into NMEAReader on a socket."""
    if limit and len(behaviours) > limit:
        behaviours = behaviours[core.SEED % (len(behaviours) // limit + 1)::len(behaviours) // limit + 1]
    wires = [wire_of(c) for c in cases]
    data = [b"".join(c[3] if len(c) > 3 else c[0]) if c[1] else c[2] for c in cases]
    cache = {}
    for n, b in enumerate(behaviours):
        ci = b["c"] - 1
        o = runs.options(quit=n % 3, nmeaonly=n % 5 == 0, val=(1, 0, 3)[n % 7 % 3], handler=n % 2 == 0)
        want = []
        bad = (lambda k: want.append("raise:" + k if o["quit"] == 2 else "err:" + (k if o["handler"] else "*"))) if o["quit"] else (lambda k: None)
        raws = []
        for e in b["b"]:
            if e["x"] == "sentence":
                raw = data[ci][e["f"] - 1:e["t"]]
                key = (raw, o["val"])
                if key not in cache:
                    cache[key] = runs.alone(raw, o)["kind"]
                if cache[key] in ("msg", "none"):
                    want.append("pair")
                    raws.append(raw)
                else:
                    bad(cache[key])
            elif e["x"] == "foreign":
                if o["nmeaonly"]:
                    bad("NMEAParseError")
            elif e["x"] == "trunc":
                bad("NMEAStreamError")
            else:
                want.append("end:")
        sk = ScriptedSocket(cut(wires[ci], b["s"], n))
        s = runs.Session(sk, o, None, n % 4 == 1, encoding=(1 if cases[ci][1] else 0) | enc, bufsize=bufsizes[n % len(bufsizes)])
        s.run(b["s"].count(-1) + 4, len(wires[ci]) + 12)
        got = flat(s.items)
        while got[-2:] == ["end:", "end:"] and len(got) > len(want):
            got.pop()
        graws = [bytes(x["raw"]) for x in s.items if x["x"] == "pair"]
        sk.close()
        c = "stack:sentences" if graws != raws else "stack:sequence" if got != want else ""
        if c:
            chk.violation([c], {"model": label, "wire": wires[ci].decode("latin-1"), "script": b["s"], "options": o, "expected": want, "got": got,
                                "sentences": [x.decode("latin-1") for x in raws], "delivered": [x.decode("latin-1") for x in graws]})
        if n % max(1, len(behaviours) // 3) == 1:
            chk.sample({"wire": wires[ci].decode("latin-1"), "script": b["s"], "behaviour": b["b"]})
    chk.traces += len(behaviours)
    chk.notes.setdefault("replayed", {})[label] = len(behaviours)


# ------------------------------------------------------------------ recorded runs
def wrapper_run(rng, wire, script, chunked, codec=(), enc=0, bufsize=4096, pattern=None):
    """ops on SocketWrapper until everything is surely read"""
    sk = Sock(script)
    ops = []
    kind, w = guard(SocketWrapper, sk, encoding=enc, bufsize=bufsize)
    if kind != "ok":
        ops.append({"op": 1, "kind": kind, "out": []})
    else:
        gaps = sum(isinstance(x, str) for x in script)
        dry = 0
        while dry < gaps + 3 and len(ops) < 4000:
            op = pattern[len(ops) % len(pattern)] if pattern else rng.choice([0, 1, 1, 2, 3, 5, 17, 64, 300])
            if dry >= 1 and rng.random() < .5:
                op = 1
            if dry > gaps:
                op = 1
            kind, v = guard(w.readline) if op == 0 else guard(w.read, op)
            ops.append({"op": op, "kind": kind, "out": list(v) if kind == "ok" and isinstance(v, (bytes, bytearray)) else []})
            if kind != "ok":
                break
            dry = dry + 1 if op == 1 and not v else dry
    run = {"wire": list(wire), "script": sk.log + sk.rest(), "chunked": chunked, "codec": [list(x) for x in codec], "ops": ops, "bufsize": bufsize}
    sk.close()
    return run


def judge_wrapper(chk, rs, label="TraceSocket", alts=None):
    """alts: indices of runs forming alternatives [[i, j], ...]: one of each must conform"""
    path = os.path.join(core.tmpdir(), "wr.json")
    with open(path, "w") as f:
        json.dump({"runs": rs}, f, separators=(",", ":"))
    r = chk.tlc(tlc("TraceSocket", env={"TRACE": path}), label)
    out = [None] * len(rs)
    for ln in r.lines:
        t, i, v = ln.split("|", 2)
        out[int(t) - 1] = (int(i), v)
    if any(x is None for x in out):
        raise core.MachineryError("missing wrapper verdicts")
    for grp in alts or [[i] for i in range(len(rs))]:
        chk.traces += 1
        v = [out[i] for i in grp]
        c = "conforms" if any(x[1] == "conforms" for x in v) else v[0][1]
        chk.classes[c] = chk.classes.get(c, 0) + 1
        if c != "conforms":
            run = rs[grp[0]]
            k = v[0][0]
            chk.violation([c], {"wire": bytes(run["wire"]).decode("latin-1")[:2000], "script": run["script"][:400], "bufsize": run["bufsize"],
                                "call": k, "seen": run["ops"][k - 1] if k <= len(run["ops"]) else None})
    chk.notes["events"] = chk.notes.get("events", 0) + sum(len(x["ops"]) for x in rs)
    chk.sample({"script": rs[0]["script"][:20], "ops": [(o["op"], len(o["out"])) for o in rs[0]["ops"]][:20]})


def segments(rng, wire, style=None, gaps=0):
    """random segmentation, optionally with failing receives (never first)"""
    out, w = [], 0
    style = style or rng.choice(["small", "mixed", "large", "crlf", "one"])
    while w < len(wire):
        n = {"small": lambda: rng.randint(1, 3), "mixed": lambda: rng.randint(1, 40), "large": lambda: rng.randint(30, 400), "one": lambda: len(wire),
             "crlf": lambda: max(1, wire.find(b"\r", w) + rng.choice([0, 1, 2]) - w)}[style]()
        out.append(wire[w:w + n])
        w += n
    for _ in range(gaps):
        p = rng.randint(1, len(out))
        out[p:p] = [rng.choice(FAILS)] * rng.choice([1, 1, 1, 1, 2, 3, 6, 25])      # now and then several in a row
    return out


def reader_run(script, wire, o, chunked=False, codec=(), enc=0, bufsize=4096, al=(), udt=None, iterate=False, sock=None):
    sk = sock or Sock(script)
    s = runs.Session(sk, o, udt, iterate, encoding=enc, bufsize=bufsize)
    gaps = sum(isinstance(x, str) for x in script)
    s.run(gaps + 3, len(wire) + 10 + gaps)
    run = {"wire": list(wire), "script": sk.log + sk.rest(), "chunked": chunked, "codec": [list(x) for x in codec], "o": o, "al": list(al), "items": s.items}
    sk.close()
    return run


def sentences(rng, cat, n, pj=.4):
    """CRLF-terminated traffic for sockets: no bare LF"""
    d = b""
    for _ in range(n):
        if rng.random() < pj:
            d += junk(rng).replace(b"\n", b"").replace(b"$", b"")
        m = rng.choice(cat)
        nt, tx = gen.fields_for(m, rng, rng.randint(0, 2))
        c = gen.content(m, tx)
        d += S(c, None if rng.random() < .9 else "00")
    return d


def judge_readers(chk, rs, label, only=lambda c: True, alts=None):
    from checks_stream import judge_files
    if alts is None:
        judge_files(chk, rs, only, label=label)
        return
    v, r = runs.judge_runs(rs)
    chk.tlc(r, label)
    for grp in alts:
        chk.traces += 1
        if not any(v[i][1] == "conforms" for i in grp):
            run = rs[grp[0]]
            chk.violation([v[grp[0]][1]], {"wire": bytes(run["wire"]).decode("latin-1")[:2000], "script": run["script"][:300], "item": v[grp[0]][0]})


# ------------------------------------------------------------------ C07
def c07():
    chk, rng = Check("C07"), random.Random(core.SEED)
    t = core.thorough()
    cases = [([], False, b"$GP\r\n\xb5$G\r\r\n"[:N(10, 13)]), ([], False, b"A\r\nB\n\r\r\nCD")]
    b = mc_socket(chk, cases, [[1], [0], [2], [3, 0], [1, 0, 4], [7]], 0, "unchunked", live=True)
    replay_socket(chk, b, cases, "unchunked", bufsizes=(4096, 3, 1, 2))
    rs = []
    for k in range(N(150, 2500)):
        wire = sentences(rng, gen.catalog(), rng.randint(1, 5))
        rs.append(wrapper_run(rng, wire, segments(rng, wire), False, bufsize=rng.choice([1, 2, 7, 64, 4096, 4096])))
    judge_wrapper(chk, rs)
    # readers: same results as from a file
    rs, cat = [], gen.catalog()
    for k in range(N(200, 3000)):
        o = runs.options(quit=rng.choice([0, 1, 2]), val=rng.choice([0, 1, 3]), mode=0, nmeaonly=rng.random() < .2)
        wire = sentences(rng, [m for m in cat if m.mode == 0], rng.randint(1, 5))
        al = [runs.alone(f, o) for f in runs.frames(wire)]
        rs.append(reader_run(segments(rng, wire), wire, o, bufsize=rng.choice([1, 3, 16, 100, 4096]), al=al, iterate=rng.random() < .3))
        f = runs.file_run(wire, o)
        sock_seq = [x for x in rs[-1]["items"]][:len(f["items"])]
        strip = lambda its: [{k: v for k, v in x.items() if k != "via"} for x in its]  # noqa: E731
        chk.traces += 1
        if strip(sock_seq) != strip(f["items"]):
            chk.violation(["file:differs"], {"wire": wire.decode("latin-1"), "script": rs[-1]["script"], "options": o})
    judge_readers(chk, rs, "readers", lambda c: not c.startswith("result"))
    # all segmentations of one sentence into up to 3 segments, through the reader
    rs = []
    wire = b"\x00" + HDT + b"$GPHDT,2,T*" + gen.xor("GPHDT,2,T").encode() + b"\r\n"
    o = runs.options(quit=2)
    al = [runs.alone(f, o) for f in runs.frames(wire)]
    for i in range(1, len(wire)):
        for j in range(i, len(wire), 1 if t else 3):
            rs.append(reader_run([x for x in (wire[:i], wire[i:j], wire[j:]) if x], wire, o, al=al))
    judge_readers(chk, rs, "cuts", lambda c: not c.startswith("result"))
    real_sockets(chk, rng, N(12, 120))
    chk.events(big_receives(rng, N(12, 100)), label="big receives")
    cases = [([], False, b"\x00" + H1 + b"$x" + b"$G\r\nA\n\r\n$$P1"), ([], False, b"$" + H1 + b"$GP,\r\r\n")] + ([([], False, HDT + b"\xb5b$" + H1)] if t else [])
    b = mc_stack(chk, cases, N(4, 5), 0, "stack", live=True)
    replay_stack(chk, b, cases, "stack", limit=N(6000, 60000))
    return finish(chk, "model_checking")


class RealSock(socket.socket):
    """a connected socket whose receives are recorded"""

    def __init__(self, s):
        super().__init__(fileno=s.detach())
        self.settimeout(10)
        self.log, self.script = [], []

    def recv(self, n, *a):
        try:
            r = super().recv(n, *a)
        except OSError:
            self.log.append(-1)
            raise
        if r:
            self.log.append(len(r))
        return r

    def rest(self):
        return []


def real_sockets(chk, rng, n, chunked=False):
    rs = []
    for k in range(n):
        wire0 = sentences(rng, [m for m in gen.catalog() if m.mode == 0], 4)
        wire = wire0
        if chunked:
            wire = b"".join(b"%x\r\n" % len(x) + x + b"\r\n" for x in segments(rng, wire0, "mixed")) + b"0\r\n\r\n"
        a, b = socket.socketpair()
        b.settimeout(5)
        segs = segments(rng, wire)

        def send(sock=a, segs=segs):
            try:
                for x in segs:
                    sock.sendall(x)
            except OSError:
                pass
            finally:
                sock.close()
        th = threading.Thread(target=send)
        th.start()
        o = runs.options(quit=0)
        al = [runs.alone(f, o) for f in runs.frames(wire0)]
        rs.append(reader_run([], wire, o, chunked=chunked, enc=int(chunked), bufsize=rng.choice([16, 4096]), al=al, sock=RealSock(b)))
        th.join()
        if rs[-1]["script"] and sum(x for x in rs[-1]["script"] if x > 0) < len(wire):
            rs[-1]["script"].append(len(wire) - sum(x for x in rs[-1]["script"] if x > 0))
    judge_readers(chk, rs, "real sockets", lambda c: not c.startswith("result"))


# ------------------------------------------------------------------ C08
BODIES = [[b"AB", b"C"], [b"\r\n", b"$G\r\n"], [b"0\r\n\r\n"]]


def chunk(x, style="%X", ext=b""):
    return (style % len(x)).encode() + b"\r\n" + x + b"\r\n"


def big_receives(rng, n):
    """more than 64 KiB in the buffer at a time, read in small and large pieces and lines"""
    from checks_msg import same
    ev = []
    for k in range(n):
        data = rng.randbytes(rng.choice([65535, 65536, 65537, 70000, 131073, 200000])).replace(b"\n", b"\r\n") + rng.choice([b"", b"end\r\n"])
        m = rng.choice([len(data), len(data), 65536, 40000, 1460])
        sk = ScriptedSocket([data[i:i + m] for i in range(0, len(data), m)])
        kind, w = guard(SocketWrapper, sk, bufsize=rng.choice([1 << 20, 1 << 18, 65536, 4096]))
        got, bad = b"", ""
        while kind == "ok":
            m = rng.choice([1, 7, 100, 4096, 30000, 66000, 0])
            kind, v = guard(w.read, m) if m else guard(w.readline)
            if kind == "ok" and not v:
                kind, v = guard(w.read, 1)
                if not v:
                    break
            if kind == "ok":
                got += v
        ev.append(same([kind, len(got), zlib.crc32(got)], ["ok", len(data), zlib.crc32(data)], "big receives"))
        sk.close()
    return ev


def big_chunks(rng, n, codec=lambda x: x, enc=1, fill=random.Random.randbytes):
    """chunks around 64 KiB and beyond: all that was sent comes out, and it comes out in order"""
    from checks_msg import same
    ev = []
    for k in range(n):
        parts = [fill(rng, m) for m in (rng.choice([4096, 65535, 65536, 65537, 70001, 99999, 131072, 300000]), rng.randint(1, 30))]
        rng.shuffle(parts)
        wire = b"".join(chunk(codec(p), rng.choice(["%X", "%x", "%06x"])) for p in parts) + b"0\r\n\r\n"
        segs, w = [], 0
        while w < len(wire):
            m = rng.choice([1, 100, 1460, 4096, 5000, 40000])
            segs.append(wire[w:w + m])
            w += m
        sk = ScriptedSocket(segs)
        kind, wr = guard(SocketWrapper, sk, encoding=enc, bufsize=rng.choice([4096, 4096, 1000, 65536]))
        got = b""
        while kind == "ok":
            m = rng.choice([1, 1000, 50000])
            kind, v = guard(wr.read, m)
            if not v and m == 1:
                break
            got += v
            if not v:
                kind, v = guard(wr.read, 1)
                if not v:
                    break
                got += v
        data = b"".join(parts)
        ev.append(same([len(got), zlib.crc32(got)], [len(data), zlib.crc32(data)], "big chunks", sizes=[len(p) for p in parts]))
        sk.close()
    return ev


def c08():
    chk, rng = Check("C08"), random.Random(core.SEED)
    cases = [([b"AB", b"C"], True, b""), ([b"\r\n"], True, b"0\r\n\r\n"), ([b"0\r\nx"], True, b"")] + ([([b"A", b"\n", b"\r"], True, b""), ([b"$G\r\n"], True, b"0\r\n\r\n")] if core.thorough() else [])
    b = mc_socket(chk, cases, [[1], [0], [2, 0]], 1, "chunked", live=True)
    replay_socket(chk, b, cases, "chunked")
    rs = []
    for k in range(N(300, 5000)):
        parts = [bytes(rng.choice(b"ABab019\r\n\r\n$*,\x00\xff") for _ in range(rng.choice([1, 2, 3, 9, 10, 15, 16, 17, 31, 255, 256, 257, 300]))) for _ in range(rng.randint(1, 6))]
        if rng.random() < .08:
            parts.append(bytes(rng.choice(b"AB\r\n") for _ in range(4096)))
        wire = b"".join(chunk(p, rng.choice(["%X", "%x", "0%x", "%04X"])) for p in parts)
        if rng.random() < .6:
            wire += b"0\r\n\r\n"
        g = rng.choice([0, 0, 1, 2])
        rs.append(wrapper_run(rng, wire, segments(rng, wire, gaps=g), True, enc=1, bufsize=rng.choice([1, 2, 5, 64, 4096, 4096])))
    # each two-segment and three-segment split of one stream, a failing receive after each
    wire = chunk(b"$GPHDT,\r\n") + chunk(b"12") + chunk(b"0123456789abcdefgh", "%x") + b"0\r\n\r\n"
    for i in range(1, len(wire)):
        rs.append(wrapper_run(rng, wire, [wire[:i], "timeout", wire[i:]], True, enc=1, pattern=[1]))
        for j in range(i + 1, len(wire), 1 if core.thorough() else 4):
            rs.append(wrapper_run(rng, wire, [wire[:i], wire[i:j], wire[j:]], True, enc=1, pattern=[1, 3, 0]))
    judge_wrapper(chk, rs)
    chk.events(big_chunks(rng, N(12, 100)), label="big chunks")
    rs, cat = [], [m for m in gen.catalog() if m.mode == 0]
    for k in range(N(120, 2000)):
        data = sentences(rng, cat, rng.randint(1, 4))
        wire = b"".join(chunk(x, rng.choice(["%X", "%x"])) for x in segments(rng, data, rng.choice(["mixed", "small", "crlf", "large"]))) + b"0\r\n\r\n"
        o = runs.options(quit=rng.choice([0, 1, 2]))
        al = [runs.alone(f, o) for f in runs.frames(data)]
        rs.append(reader_run(segments(rng, wire), wire, o, chunked=True, enc=1, bufsize=rng.choice([3, 64, 4096]), al=al))
    judge_readers(chk, rs, "readers", lambda c: not c.startswith("result"))
    real_sockets(chk, rng, N(8, 80), True)
    cases = [([H1[:5], H1[5:] + b"$x$$G", b"1\r\n"], True, b"0\r\n\r\n"), ([b"$GP", b"\r\n$"], True, b"")]
    b = mc_stack(chk, cases, N(3, 4), 1, "stack, chunked")
    replay_stack(chk, b, cases, "stack, chunked", limit=N(5000, 50000))
    return finish(chk, "model_checking")


# ------------------------------------------------------------------ C09
def deflate(x, wbits):
    k = zlib.crc32(x) + len(x)      # levels, strategies, smaller windows, several blocks
    c = zlib.compressobj((6, 9, 1, 0, 6)[k % 5], zlib.DEFLATED, wbits - (k % 7 if k % 3 == 0 and wbits > 0 else 0), 9 - k % 2, (0, 0, 1, 2, 3, 4)[k % 6])
    h = len(x) // 2 if k % 4 == 1 else len(x)
    return c.compress(x[:h]) + (c.flush((zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH)[k % 2]) if h < len(x) else b"") + c.compress(x[h:]) + c.flush()


CODEC = {2: lambda x: deflate(x, 31), 4: lambda x: deflate(x, 15), 8: lambda x: deflate(x, -15)}
# several at once: gzip is the outermost, deflate the innermost
CODEC.update({6: lambda x: CODEC[2](CODEC[4](x)), 10: lambda x: CODEC[2](CODEC[8](x)), 12: lambda x: CODEC[4](CODEC[8](x)), 14: lambda x: CODEC[2](CODEC[4](CODEC[8](x)))})


def codec_runs(rng, n, chk):
    rs, alts = [], []
    for k in range(n):
        enc = rng.choice([2, 4, 8])
        bad = rng.random() < .4
        parts, outs, isbad = [], [], []
        for _ in range(rng.randint(1, 5)):
            x = b"".join(rng.choice([HDT, b"AB\r\n", b"\x00" * rng.randint(1, 50), bytes(rng.randrange(256) for _ in range(rng.randint(1, 30)))]) for _ in range(rng.randint(0, 3)))
            z = CODEC[enc](x)
            if bad and rng.random() < .5:
                # not a valid stream of this codec: corrupted, truncated or in another format
                cands = [z[:-5] if len(z) > 6 else b"\xff\xff", bytes([z[0] ^ 0x55]) + z[1:], b"plain text", CODEC[rng.choice([2, 4, 8])](x), b"\xff" * 8]
                z = rng.choice(cands)
                try:
                    zlib.decompress(z, wbits={2: 31, 4: 15, 8: -15}[enc])
                    continue          # happens to be valid
                except zlib.error:
                    pass
                parts.append(z), outs.append(None), isbad.append(True)
            else:
                parts.append(z), outs.append(x), isbad.append(False)
        if not parts:
            continue
        wire = b"".join(chunk(z) for z in parts) + b"0\r\n\r\n"
        script = segments(rng, wire, gaps=rng.choice([0, 0, 1]))
        run = wrapper_run(rng, wire, script, True, codec=[], enc=1 | enc, bufsize=rng.choice([2, 64, 4096]), pattern=[1] if any(isbad) else None)
        grp = []
        for how in ("raw", "drop") if any(isbad) else ("raw",):
            rs.append(dict(run, codec=[list((z if how == "raw" else b"") if o is None else o) for z, o in zip(parts, outs)]))
            grp.append(len(rs) - 1)
        alts.append(grp)
    judge_wrapper(chk, rs, "codecs", alts)


def c09():
    chk, rng = Check("C09"), random.Random(core.SEED)
    codec_runs(rng, N(350, 6000), chk)
    # every split of a short compressed stream, each codec
    rs, alts = [], []
    for enc in (2, 4, 8):
        for parts, bads in (([b"AB\r\n", b"CD"], []), ([b"AB", b"!bad!", b"EF"], [1])):
            z = [CODEC[enc](p) if i not in bads else b"\xff\xfe!bad" for i, p in enumerate(parts)]
            wire = b"".join(chunk(x) for x in z) + b"0\r\n\r\n"
            for i in range(1, len(wire)):
                for j in ([i] if not core.thorough() else range(i, len(wire), 2)):
                    script = [x for x in (wire[:i], wire[i:j], wire[j:]) if x]
                    run = wrapper_run(rng, wire, script, True, enc=1 | enc, pattern=[1])
                    grp = []
                    for how in ("raw", "drop") if bads else ("raw",):
                        rs.append(dict(run, codec=[list(p if k not in bads else (z[k] if how == "raw" else b"")) for k, p in enumerate(parts)]))
                        grp.append(len(rs) - 1)
                    alts.append(grp)
    judge_wrapper(chk, rs, "splits", alts)
    # readers over compressed chunks
    rs, cat = [], [m for m in gen.catalog() if m.mode == 0]
    for k in range(N(80, 1200)):
        enc = rng.choice([2, 4, 8]) if rng.random() < .8 else rng.choice([6, 10, 12, 14])
        data = sentences(rng, cat, rng.randint(1, 4))
        parts = segments(rng, data, "mixed")
        wire = b"".join(chunk(CODEC[enc](x)) for x in parts) + b"0\r\n\r\n"
        o = runs.options(quit=rng.choice([0, 1]))
        al = [runs.alone(f, o) for f in runs.frames(data)]
        rs.append(reader_run(segments(rng, wire), wire, o, chunked=True, codec=parts, enc=1 | enc, bufsize=rng.choice([16, 4096]), al=al))
    judge_readers(chk, rs, "readers", lambda c: not c.startswith("result"))
    # chunks that inflate to much more than they were, and beyond 64 KiB
    ev = []
    for enc in (2, 4, 8):
        for fill in (lambda r, m: bytes(r.randrange(256) for _ in range(7)) * (m // 7 + 1), lambda r, m: b"\x00" * m, random.Random.randbytes, lambda r, m: (HDT * (m // len(HDT) + 1)),
                     lambda r, m: (lambda y: (y * (m // len(y) + 2)))(r.randbytes(r.choice([3000, 9000, 17000, 32000])))):      # matches far back
            ev += big_chunks(rng, N(3, 20), CODEC[enc], 1 | enc, fill)
    chk.events(ev, label="big chunks")
    # the decoding automaton itself, exhaustively
    mc_socket(chk, [([b"AB", b"C"], True, b"")], [[1]], 1, "chunked")
    # the whole stack over compressed chunks
    for enc in (2, 4, 8):
        parts = [H1[:5], H1[5:] + b"$G\r\n"]
        cases = [([CODEC[enc](x) for x in parts], True, b"0\r\n\r\n", parts)]
        b = mc_stack(chk, cases, N(2, 3), 1, f"stack, codec {enc}")
        replay_stack(chk, b, cases, f"stack, codec {enc}", enc=enc, limit=N(3000, 30000))
    return finish(chk, "model_checking")


# ------------------------------------------------------------------ C10
def c10():
    chk, rng = Check("C10"), random.Random(core.SEED)
    cases = [([], False, b"$G\r\nA\r\n"), ([], False, b"AB\rC\r")]
    b = mc_socket(chk, cases, [[1], [0], [2], [3, 0], [1, 0, 4]], N(1, 2), "failing receives", live=True)
    replay_socket(chk, b, cases, "failing receives")
    cases = [([b"AB"], True, b"")]
    b = mc_socket(chk, cases, [[1], [0]], 2, "failing receives, chunked")
    replay_socket(chk, b, cases, "failing receives, chunked")
    rs = []
    for k in range(N(250, 4000)):
        wire = sentences(rng, gen.catalog(), rng.randint(1, 4))
        rs.append(wrapper_run(rng, wire, segments(rng, wire, gaps=rng.randint(1, 5)), False, bufsize=rng.choice([1, 7, 4096])))
    judge_wrapper(chk, rs)
    # in the middle of chunks
    rs = []
    for k in range(N(200, 3000)):
        wire = b"".join(chunk(x, rng.choice(["%X", "%x"])) for x in segments(rng, sentences(rng, gen.catalog(), 2), rng.choice(["mixed", "small", "crlf"]))) + rng.choice([b"0\r\n\r\n", b""])
        rs.append(wrapper_run(rng, wire, segments(rng, wire, gaps=rng.randint(1, 5)), True, enc=1, bufsize=rng.choice([1, 7, 4096])))
    judge_wrapper(chk, rs, "chunked")
    # nothing to receive yet when the wrapper is made: whether it tries then or at the first read is its own affair
    rs, alts = [], []
    for f in FAILS:
        for n in (1, 2, 5):
            wire = sentences(rng, gen.catalog(), 2)
            run = wrapper_run(rng, wire, [f] * n + segments(rng, wire, gaps=1), False, bufsize=rng.choice([7, 4096]))
            rs += [run, dict(run, script=run["script"][1:])]
            alts.append([len(rs) - 2, len(rs) - 1])
    judge_wrapper(chk, rs, "failing at first", alts)
    rs, cat = [], [m for m in gen.catalog() if m.mode == 0]
    for k in range(N(250, 4000)):
        wire = sentences(rng, cat, rng.randint(1, 4))
        o = runs.options(quit=rng.choice([0, 1, 2]), nmeaonly=rng.random() < .2, val=rng.choice([0, 1]), handler=rng.random() < .7)
        rs.append(reader_run(segments(rng, wire, gaps=rng.randint(1, 4)), wire, o, bufsize=rng.choice([1, 16, 4096]), iterate=rng.random() < .3))
    # a failing receive at every position of a two-sentence stream
    wire = HDT + S("GPHDT,2,T")
    al = [runs.alone(f, runs.options()) for f in runs.frames(wire)]
    for i in range(1, len(wire)):
        for f in FAILS:
            if core.thorough() or FAILS.index(f) % 3 == i % 3:
                rs.append(reader_run([wire[:i], f, wire[i:]], wire, runs.options(quit=i % 3), al=al if i >= len(HDT) else al[1:]))
    judge_readers(chk, rs, "readers", lambda c: not c.startswith("result"))
    cases = [([], False, b"\x00" + H1 + b"$x" + b"$G\r\nA\n\r\n$$P1"), ([], False, H1 + H1)]
    b = mc_stack(chk, cases, 3, N(2, 3), "stack", live=True)
    replay_stack(chk, b, cases, "stack", limit=N(6000, 60000))
    return finish(chk, "model_checking")
