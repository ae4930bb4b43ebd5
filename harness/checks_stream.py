"""C01-C05: the stream reader."""
import glob, io, json, os, random

import core, gen, proj, runs
from core import Check, finish, tlc
from pynmeagps import NMEAReader

S = gen.sentence
# pieces of token-level streams (model MCReader)
HDT = S("GPHDT,1.5,T")
PIECES = [HDT, S("GPHDT,2.5,T", "00"), S("GPXYZ,1"), S("GPHDT,x,T"), b"$GPHDT\r\n", b"$", b"x", b"$x", b"\r\n", b"$GPHDT,3",
          b"\xb5b$\x01", S("PUBX,04,1"), S("GPHDT,4,T", end="\n"), b"$$GPHDT,5,T*00\r\n"]
LETTERS = [b"$", b"G", b"x", b"\n", b"\r"]


def mc_reader(chk, pieces, lo, hi, vals, label, shard=(0, 1), live=False, eol="LF"):
    cfg = {"pieces": [list(p) for p in pieces], "min": lo, "max": hi, "eol": eol, "val": vals, "shard": list(shard)}
    path = os.path.join(core.tmpdir(), "mc.json")
    json.dump(cfg, open(path, "w"))
    r = chk.tlc(tlc("MCReader", env={"MC": path}), label)
    chk.exhaustive[label] = f"all streams of {lo}..{hi} pieces out of {len(pieces)}, nmeaonly x quitonerror x validate {vals}: {r.distinct} states"
    if live:
        cfg.update(max=min(hi, 3), shard=[0, 10**6])
        json.dump(cfg, open(path, "w"))
        chk.tlc(tlc("MCReader", "MCReaderLive", env={"MC": path}), label + "-liveness")
    return [json.loads(x) for x in r.lines]


def replay_reader(chk, behaviours, pieces, compare, label):
    """Replay behaviours of MCReader into the real reader; compare(expected, got, stream, session) -> clause or ''"""
    n = 0
    cache = {}
    for b in behaviours:
        d = b"".join(pieces[i - 1] for i in b["s"])
        o = runs.options(quit=b["o"]["quit"], nmeaonly=b["o"]["nmeaonly"], val=b["o"]["val"], handler=(n % 2 == 0))
        s = runs.Session((io.BytesIO if n % 3 else runs.ByteStream)(d), o, iterate=n % 4 == 1)
        s.run(3, len(d) + 10)
        want = b["b"] + [{"x": "end"}] * 2
        c = compare(want, s.items, d, o, cache)
        if c:
            chk.violation([c], {"model": label, "stream": d.decode("latin-1"), "options": o, "expected": want, "got": s.items})
        n += 1
        if n % max(1, len(behaviours) // 3) == 1:
            chk.sample({"stream": d.decode("latin-1"), "options": o, "behaviour": b["b"]})
    chk.traces += n
    chk.notes.setdefault("replayed", {})[label] = n


def pairs(items):
    return [it for it in items if it["x"] == "pair"]


def cmp_frames(want, got, d, o, cache):
    w = [d[x["f"] - 1:x["t"]] for x in pairs(want)]
    g = [bytes(x["raw"]) for x in pairs(got)]
    if w != g:
        return "frame:" + ("lost" if len(g) < len(w) else "extra" if len(g) > len(w) else "raw")
    return ""


def cmp_results(want, got, d, o, cache):
    for x in pairs(got):
        raw = bytes(x["raw"])
        k = (raw, o["mode"], o["val"])
        if k not in cache:
            cache[k] = runs.alone(raw, o)
        if cache[k] != x["r"]:
            return "result:differs"
    # the outcome of every framed sentence is what parsing it alone gives
    al = []
    for f in runs.frames(d):
        k = (f, o["mode"], o["val"])
        if k not in cache:
            cache[k] = runs.alone(f, o)
        al.append((f, cache[k]["kind"]))
    if [f for f, k in al if k in ("msg", "none")] != [bytes(x["raw"]) for x in pairs(got)]:
        return "result:outcome"
    if o["quit"] == 2 and not o["nmeaonly"]:
        e = [x["k"] for x in got if x["x"] == "raise" and x["k"] != "NMEAStreamError"]
        if e != [k for f, k in al if k not in ("msg", "none")]:
            return "result:error"
    return ""


def flat(items, kinds=True):
    out = []
    for x in items:
        if x["x"] == "pair":
            out.append("pair")
        elif x["x"] == "err":
            out.append("err:" + (x["k"] if kinds and x.get("via") != "l" else "*"))
        else:
            out.append(x["x"] + ":" + x.get("k", ""))
    return out


def cmp_errors(want, got, d, o, cache):
    w = flat([dict(x, via="h" if o["handler"] else "l") for x in want])
    g = flat(got)
    if any(x["x"] == "err" and x["via"] != ("h" if o["handler"] else "l") for x in got):
        return "error:channel"
    return "" if w == g else "error:sequence"


def cmp_end(want, got, d, o, cache):
    if len(got) < 3 or any(x["x"] != "end" for x in got[-3:]):
        return "end:not reached"
    if any(x["x"] == "raise" and (o["quit"] != 2 or x["k"] not in core_errors) for x in got):
        return "end:raise"
    if any(x["x"] == "end" for x in got[:-3]):
        return "end:early"
    fr = set(runs.frames(d))
    if any(bytes(x["raw"]) not in fr for x in pairs(got)):
        return "end:partial sentence"
    if o["quit"]:
        w = [x for x in want if x.get("k") == "NMEAStreamError"]
        g = [x for x in got if x.get("k") == "NMEAStreamError"]
        if len(w) != len(g):
            return "end:stream error"
    return ""


core_errors = {"NMEAParseError", "NMEAMessageError", "NMEATypeError", "NMEAStreamError"}


def cmp_foreign(want, got, d, o, cache):
    if o["nmeaonly"]:
        return cmp_errors(want, got, d, o, cache) if o["quit"] else cmp_frames(want, got, d, o, cache)
    if o["quit"]:
        w = sum(x.get("k") == "NMEAParseError" for x in want)
        g = sum(x.get("k") == "NMEAParseError" for x in got)
        if g > w and (o["handler"] or o["quit"] == 2):
            return "foreign:reported although nmeaonly is off"
    return cmp_frames(want, got, d, o, cache)


# ------------------------------------------------------------------ recorded runs
def junk(rng):
    return rng.choice([
        lambda: b"\xb5b" + bytes(rng.randrange(256) for _ in range(rng.randint(4, 20))),
        lambda: b"\xb5b\x01\x07" + rng.choice([92, 20, 300]).to_bytes(2, "little"),         # header only: what follows is no payload
        lambda: b"\xd3\x00" + bytes([rng.choice([0, 19, 100])]) + b"=\xd0",
        lambda: b"$@" + bytes(rng.randrange(256) for _ in range(6)) + rng.choice([b"\x14\x00", b"\x40\x00"]),
        lambda: b"!AIVDM,1,1,,B,177KQJ5000G?tO`K>RA1wUbN0TKH,0*5C" + rng.choice([b"", b"\r\n", b"\r", b"\n"]),
        lambda: b"\\s:r3669961,c:1120959341*" + rng.choice([b"51", b"00"]) + b"\\",
        lambda: rng.choice([b"HTTP/1.1 200 OK\r\nContent-Type: gnss/data\r\n\r\n", b"ICY 200 OK\r\n\r\n", b"# comment\n", b"<xml>\n", b"{\"class\":\"VERSION\"}\r\n"]),
        lambda: b"\x00" * rng.choice([1, 50, 300]),
        lambda: b"2024-01-01 12:00:00 " if rng.random() < .5 else b"\r",
        lambda: b"\xd3\x00" + bytes([rng.randint(2, 9)]) + bytes(rng.randrange(256) for _ in range(rng.randint(4, 12))),
        lambda: b"$" + bytes([rng.choice(b"xq\x00\xff1 *,!\n\rJ") if rng.random() < .4 else rng.choice(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") if rng.random() < .7 else rng.randrange(256)]) + bytes(rng.choice(b"abc,\r\n") for _ in range(rng.randint(0, 5))),
        lambda: b"$" * rng.randint(1, 3),
        lambda: b"\r\n" * rng.randint(1, 2),
        lambda: bytes(rng.choice(b"GNPA,*$\r\n\x00\x80") for _ in range(rng.randint(1, 8))),
        lambda: b"!AIVDM,1,1,,A,x*00\r\n",
    ])()


def any_sentence(rng, cat, kinds="good"):
    m = rng.choice(cat)
    nt, tx = gen.fields_for(m, rng, rng.randint(0, 3), .15 if kinds == "all" else 0)
    c = gen.content(m, tx)
    r = rng.random() if kinds == "all" else 0
    if r > .9:
        return S(c, "00"), m.mode
    if r > .85:
        return ("$" + c + "\r\n").encode(), m.mode
    if r > .8:
        return S("GP" + "".join(rng.choice("QXZ") for _ in range(3)) + ",1,2"), m.mode
    if r > .75:
        return S(c, gen.xor(c).lower()), m.mode
    return S(c, end="\r\n" if r < .7 else "\n"), m.mode


def mixed(rng, cat, n, kinds="all", pj=.5):
    d = b""
    for _ in range(n):
        if rng.random() < pj:
            d += junk(rng)
        d += any_sentence(rng, cat, kinds)[0]
    if rng.random() < .5:
        t = any_sentence(rng, cat)[0]
        d += t[:rng.randrange(len(t))]
    return d


def logs():
    return sorted(glob.glob(os.path.join(core.REPO, "tests", "*.log")))


def judge_files(chk, rs, only, uds=(), label="TraceReader"):
    v, r = runs.judge_runs(rs, uds)
    chk.tlc(r, label)
    chk.traces += len(rs)
    for (i, c), run in zip(v, rs):
        chk.classes[c] = chk.classes.get(c, 0) + 1
        if c != "conforms" and only(c):
            it = run["items"][i - 1] if i <= len(run["items"]) else None
            chk.violation([c], {"run": {"stream": bytes(run.get("d", run.get("wire", []))).decode("latin-1")[:3000], "options": run["o"],
                                        "script": run.get("script")}, "item": i, "seen": core.brief(it) if it else None})
    chk.sample({"run": len(rs), "options": rs[0]["o"], "items": len(rs[0]["items"])})
    chk.notes["events"] = chk.notes.get("events", 0) + sum(len(x["items"]) for x in rs)


def standard_runs(rng, n, kinds="all", quits=(0, 1, 2), vals=(0, 1, 2, 3), modes=(0, 0, 1, 2), nm=(False, True), al=True, logfiles=True, ud=None):
    cat = gen.catalog()
    rs = []
    for k in range(n):
        o = runs.options(quit=rng.choice(quits), nmeaonly=rng.choice(nm), handler=rng.random() < .6, mode=rng.choice(modes), val=rng.choice(vals))
        d = mixed(rng, [m for m in cat if m.mode == o["mode"]] if rng.random() < .8 else cat, rng.randint(1, 6), kinds)
        rs.append(runs.file_run(d, o, iterate=rng.random() < .3, stream=rng.choice([io.BytesIO, runs.ByteStream, lambda x: io.BufferedReader(io.BytesIO(x), 16)]), al=al))
    if logfiles:
        for f in logs():
            d = open(f, "rb").read()
            if not core.thorough() and len(d) > 4000:
                a = rng.randrange(len(d) - 4000)
                d = d[a:a + 4000]
            rs.append(runs.file_run(d, runs.options(quit=rng.choice(quits), nmeaonly=rng.choice(nm), val=rng.choice(vals), handler=True), al=al))
    return rs


def soak(rng, n, quit, bad):
    """one reader over a long stream, a share of it errors"""
    cat = [m for m in gen.catalog() if m.mode == 0]
    good = [any_sentence(rng, cat)[0] for _ in range(50)]
    odd = [S("GPHDT,1,T", "00"), b"$GPHDT\r\n", S("GPHDT,x,T"), b"$q", b"$\x01", S("GPQQQ,1")]
    d = b"".join(rng.choice(odd if rng.random() < bad else good) for _ in range(n))
    return runs.file_run(d, runs.options(quit=quit, nmeaonly=True, handler=quit == 1, val=rng.choice([1, 3])))


def monotone(rng, what, n, quit, nm=True, **kw):
    """thousands of the same outcome in a row and then a sentence: nothing of it is remembered, and depth does not grow"""
    one = {"refused": S("GPHDT,1,T", "00"), "no checksum": b"$GPHDT\r\n", "foreign": b"$q", "dollars": b"$x$", "unknown": S("GPQQQ,1"), "junk": b"x",
           "blank": b"\r\n", "good": HDT, "ubx": b"\xb5b\x01\x02", "text": S("GPHDT,x,T")}[what]
    return runs.file_run(one * n + HDT + S("GPHDT,7.5,T"), runs.options(quit=quit, nmeaonly=nm, handler=quit == 1, val=rng.choice([1, 3])), **kw)


def models(chk, compare, vals, tokmax=2, letmax=5, live=False):
    th = core.thorough()
    b = mc_reader(chk, LETTERS, 0, letmax + (2 if th else 0), [vals[0]], "bytes", live=live)
    replay_reader(chk, b, LETTERS, compare, "bytes")
    b = mc_reader(chk, PIECES, 0, tokmax + (1 if th else 0), vals, "tokens", live=live)
    replay_reader(chk, b, PIECES, compare, "tokens")
    if not th:      # longer streams of fewer pieces
        few = [PIECES[i] for i in (0, 1, 5, 7, 9, 3)]
        b = mc_reader(chk, few, 3, 3, vals[:1], "tokens3")
        replay_reader(chk, b, few, compare, "tokens3")
    else:
        few = [PIECES[i] for i in (0, 1, 5, 7, 9, 3)]
        b = mc_reader(chk, few, 4, 5, vals[:1], "tokens5")
        replay_reader(chk, b, few, compare, "tokens5")


N = lambda q, t: t if core.thorough() else q  # noqa: E731


def c01():
    chk, rng = Check("C01"), random.Random(core.SEED)
    models(chk, cmp_frames, [1])
    judge_files(chk, standard_runs(rng, N(250, 4000)), lambda c: c.startswith("frame"))
    # long junk and long sentences
    rs = []
    for k in range(N(6, 60)):
        d = b"".join(rng.choice([bytes(rng.choice(b"abc\r\n\x00") for _ in range(rng.randint(500, 6000))), HDT, S("GNTXT,01,01,02," + "A" * rng.randint(300, 9000))]) for _ in range(5))
        rs.append(runs.file_run(d, runs.options(quit=0), stream=rng.choice([io.BytesIO, runs.ByteStream])))
    for n in N((70000,), (70000, 140000, 300000)):
        d = HDT + S("GNTXT,01,01,02," + "A" * n) + b"\x00" * n + HDT
        rs.append(runs.file_run(d, runs.options(quit=0), stream=rng.choice([io.BytesIO, runs.ByteStream])))
    rs.append(soak(rng, N(2000, 30000), 0, .2))
    rs += [monotone(rng, w, N(3500, 20000), 0, nm) for w, nm in (("junk", True), ("refused", False), ("ubx", False), ("blank", False), ("foreign", False), ("good", True))]
    judge_files(chk, rs, lambda c: c.startswith("frame"), label="long")
    return finish(chk, "model_checking")


def c02():
    chk, rng = Check("C02"), random.Random(core.SEED)
    models(chk, cmp_results, [0, 1, 2, 3], tokmax=2, letmax=4)
    ok = lambda c: c.startswith("result") or c.startswith("sentence")  # noqa: E731
    judge_files(chk, standard_runs(rng, N(350, 5000)), ok)
    # user-defined tables, and errors between good sentences
    ud = {"ZZ1": [{"k": "a", "n": "f1", "t": "IN"}, {"k": "a", "n": "f2", "t": "ST"}], "ZZ2": [{"k": "a", "n": "x", "t": "DE"}]}
    udt = {"ZZ1": {"f1": "IN", "f2": "ST"}, "ZZ2": {"x": "DE"}}
    rs = []
    for k in range(N(60, 600)):
        d = b"".join(rng.choice([S("GPZZ1,1,a"), S("GPZZ1,x,a"), S("GNZZ2,1.5"), S("XXZZ2,q"), HDT, S("GPZZ3,1"), b"$GPZZ1\r\n", S("GPHDT,1,T", "00"), b"$q"]) for _ in range(rng.randint(1, 6)))
        o = runs.options(quit=rng.choice([0, 1, 2]), mode=rng.choice([0, 1, 2]), val=rng.randint(0, 3), ud=1)
        rs.append(runs.file_run(d, o, udt))
    judge_files(chk, rs, ok, uds=[ud], label="userdefined")
    # what is accepted does not depend on what came before: a wrong checksum after very long and very many sentences
    rs = []
    for n in N((300, 1100, 5000), (255, 256, 1023, 1024, 1025, 4096, 70000)):
        for bad in (S("GPHDT,1,T", "00"), S("GPQQQ,1"), S("GPHDT,x,T")):
            d = S("GPTXT,01,01,02," + "A" * n) + bad + S("GPZZQ" + ",1" * (n // 4)) + bad + HDT
            rs.append(runs.file_run(d, runs.options(quit=rng.choice([0, 1, 2]), val=rng.choice([1, 3]))))
    rs += [monotone(rng, w, N(1500, 20000), 1) for w in ("refused", "good", "text")]
    judge_files(chk, rs, ok, label="history")
    return finish(chk, "model_checking")


def c03():
    chk, rng = Check("C03"), random.Random(core.SEED)
    models(chk, cmp_errors, [1, 3])
    bad = lambda c: c.startswith("error") or c.startswith("end:err") or c.startswith("end:raise") or c.startswith("frame:lost") or c.startswith("frame:extra")  # noqa: E731
    judge_files(chk, standard_runs(rng, N(350, 5000)), bad)
    # a handler that raises: its exception reaches the caller and the stream can be read on
    rs, cat = [], gen.catalog()
    for k in range(N(120, 1500)):
        o = runs.options(quit=rng.choice([1, 1, 1, 2]), nmeaonly=rng.random() < .4, handler=True, val=rng.choice([0, 1, 3]), boom=True)
        rs.append(runs.file_run(mixed(rng, [m for m in cat if m.mode == 0], rng.randint(1, 5), "all"), o, iterate=rng.random() < .3))
    judge_files(chk, rs, bad, label="raising handlers")
    judge_files(chk, [soak(rng, N(1500, 20000), q, .8) for q in (0, 1, 2)], bad, label="many errors")
    judge_files(chk, [monotone(rng, w, N(2500, 20000), q) for w, q in (("refused", 1), ("foreign", 1), ("no checksum", 2), ("refused", 0), ("text", 1), ("foreign", 0))], bad, label="the same error again and again")
    return finish(chk, "model_checking")


def c04():
    chk, rng = Check("C04"), random.Random(core.SEED)
    models(chk, cmp_end, [1, 0], live=True)
    cat = gen.catalog()
    rs = []
    for k in range(N(2, 30)):     # every prefix of a stream
        d = mixed(rng, [m for m in cat if m.mode == 0 and len(m.d) < 8], 2, "good", 1)[:N(90, 400)]
        for n in range(len(d) + 1):
            o = runs.options(quit=n % 3, nmeaonly=False, handler=rng.random() < .5, val=rng.choice([0, 1, 3]))
            rs.append(runs.file_run(d[:n], o, iterate=n % 2 == 0, stream=rng.choice([io.BytesIO, runs.ByteStream])))
    for k in range(N(150, 3000)):      # data that stops for a while and goes on
        o = runs.options(quit=k % 3, nmeaonly=rng.random() < .3, handler=rng.random() < .5, val=rng.choice([0, 1, 3]))
        d = mixed(rng, [m for m in cat if m.mode == 0], rng.randint(1, 5), "all", .3)
        rs.append(runs.gap_run(d, runs.gaps(rng, d, rng.randint(1, 6)), o, iterate=rng.random() < .4))
    rs += standard_runs(rng, N(100, 2000))
    rs += [monotone(rng, w, N(2500, 20000), q, w != "junk") for w, q in (("refused", 0), ("foreign", 1), ("junk", 0))]
    bad = lambda c: c.startswith("end") or c.startswith("error:trunc") or c in ("frame:extra", "frame:raw", "frame:unread") or c.endswith(":raise:hang") or "exc:" in c  # noqa: E731
    judge_files(chk, rs, bad)
    return finish(chk, "model_checking")


def c05():
    chk, rng = Check("C05"), random.Random(core.SEED)
    models(chk, cmp_foreign, [1])
    bad = lambda c: c.startswith("error:foreign") or c.startswith("frame") or c.startswith("end:err") or c.startswith("end:raise") or c.startswith("result:error")  # noqa: E731
    judge_files(chk, standard_runs(rng, N(250, 4000), kinds="good", vals=(1,), nm=(True,), al=True), bad)
    judge_files(chk, standard_runs(rng, N(100, 1500), kinds="good", vals=(1,), nm=(False,), al=True), bad, label="off")
    # every second byte, on and off
    rs = []
    for b in range(256):
        for nm in (False, True):
            rs.append(runs.file_run(b"ab$" + bytes([b]) + b"zz\r\n" + HDT, runs.options(quit=1 + b % 2, nmeaonly=nm), al=True))
    judge_files(chk, rs, lambda c: c != "conforms", label="every second byte")
    rs = []
    for k in range(N(1200, 60000)):
        d = b"".join(b"$" + bytes(rng.randrange(256) for _ in range(rng.randint(1, 3))) for _ in range(rng.randint(1, 3))) + rng.choice([b"\r\n", b"\n", b"", b"$"]) + HDT
        rs.append(runs.file_run(d, runs.options(quit=rng.choice([1, 2]), nmeaonly=rng.random() < .7)))
    rs += [monotone(rng, w, N(2500, 20000), q, nm) for w, q, nm in (("foreign", 1, True), ("dollars", 1, True), ("foreign", 2, False), ("dollars", 0, True), ("junk", 1, True))]
    judge_files(chk, rs, bad, label="headers")
    return finish(chk, "model_checking")
