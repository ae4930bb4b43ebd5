"""C06, C11-C18, C24, C25, C27: single sentences, definitions, building, string forms."""
import copy, io, json, os, random

import core, gen, proj, runs
from core import Check, finish, tlc, guard
from pynmeagps import NMEAMessage, NMEAReader
import pynmeagps
import checks_stream as cs

S = gen.sentence
N = lambda q, t: t if core.thorough() else q  # noqa: E731
ASCII = bytes(range(32, 127)).decode()


# ------------------------------------------------------------------ helpers
def lib(d):
    """definition of the specification -> definition of the library"""
    return {el["n"]: el["t"] if el["k"] == "a" else ({"fix": el["i"], "att": el["m"], "ind": "None"}[el["c"]], lib(el["d"])) for el in d}


def pev(raw, mode=0, val=1, ud=0, udt=None, limit=10.0):
    res, obj = proj.result(NMEAReader.parse, raw, msgmode=mode, validate=val, userdefined=udt, limit=limit)
    return gen.parse_event(raw, mode, val, ud, res), obj


def nev(talker, mid, mode, pl, val=1, ck=None, ud=0, udt=None):
    kw = {} if ck is None else {"checksum": ck}
    res, obj = proj.result(NMEAMessage, talker, mid, mode, payload=list(pl), validate=val, userdefined=udt, **kw)
    return {"op": "new", "talker": proj.text(talker), "id": proj.text(mid), "mode": mode, "val": val, "ud": ud,
            "pl": [proj.text(x) for x in pl], "ck": proj.text(ck or ""), "res": res}, obj


def bev(talker, mid, mode, kw, **k):
    return gen.build_event(NMEAMessage, NMEAReader, proj, talker, mid, mode, kw, **k)


def same(a, b, what, **detail):
    return {"op": "same", "a": a, "b": b, "what": what, "detail": detail}


def kind_of(c):
    """kind clause -> (why, expected, got) or None"""
    if not c.startswith("kind:"):
        return None
    _, why, exp, got = c.split(":", 3)
    return why, exp, got


def broken(c):
    """the outcome is not an outcome of the interface at all"""
    return c == "uninterpretable" or ":exc:" in c or c.endswith(":hang")


def catalog(mode=None):
    return [m for m in gen.catalog() if mode is None or m.mode == mode]


def text_def(d, counts=None):
    """the same layout with text attributes; counts stay integers"""
    if counts is None:
        counts = set()

        def scan(x):
            for el in x:
                if el["k"] == "g":
                    if el["c"] == "att":
                        counts.add(el["m"])
                    scan(el["d"])
        scan(d)
    return [dict(el, t="IN" if el["n"] in counts else "ST") if el["k"] == "a" else dict(el, d=text_def(el["d"], counts)) for el in d]


def mc(chk, module, cfg, label, cfgname=None):
    path = os.path.join(core.tmpdir(), "mc_%s.json" % module)
    json.dump(cfg, open(path, "w"))
    return chk.tlc(tlc(module, cfgname, env={"MC": path}), label)


# ------------------------------------------------------------------ C06
def c06():
    chk, rng = Check("C06"), random.Random(core.SEED)
    cat = catalog()

    def only(c, e):
        k = kind_of(c)
        if k:
            why, exp, got = k
            return why in ("checksum", "malformed") and got == "msg" or why == "checksum" or (why == "" and exp != "rej" and got == "NMEAParseError")
        return c.startswith(("same:", "serialized", "calc_", "generate_")) or (c == "checksum" and e["op"] == "new")
    ev = []
    # every defined message: right, wrong, lower case, absent, long, ... checksum under every flag combination
    for m in cat:
        for rep in range(N(1, 6)):
            nt, tx = gen.fields_for(m, rng, rng.randint(0, 2))
            c = gen.content(m, tx)
            x = gen.xor(c)
            bad = f"{int(x, 16) ^ rng.randint(1, 255):02X}"
            cks = [x, bad, x.lower(), x[0], x + "0", "0" + x, "", " " + x, x + " ", x + "*", "*" + x, "0x" + x, x[::-1], f"{int(x, 16):X}", bad.lower(), x + "*" + bad, x + "," + "1"]
            for ck in ([x, bad] + rng.sample(cks, 4) if not core.thorough() else cks):
                for val in (0, 1, 2, 3):
                    ev.append(pev(S(c, ck), m.mode, val)[0])
            for val in (0, 2):       # validation off: the checksum does not matter
                a, b = (pev(S(c, k), m.mode, val)[0]["res"] for k in (x, rng.choice(cks)))
                ev.append(same([a["kind"], a.get("m", {}).get("at", [])], [b["kind"], b.get("m", {}).get("at", [])], "checksum used although off", msg=c))
            e, obj = nev(m.talker, m.id, m.mode, tx)
            ev.append(e)
            if obj is not None:
                ev.append({"op": "serck", "ser": list(obj.serialize()), "msg": list(S(c))})
            nt, kw = gen.kwargs_for(m, rng, 1, rng.choice([0, .5, 1]))
            e, obj = bev(m.talker, m.id, m.mode, gen.variant_kw(m, kw, nt, rng), rt=False)
            if obj is not None:
                ev.append({"op": "serck", "ser": list(obj.serialize()), "msg": proj.text(str(obj))})
    chk.events(ev, only=only, label="checksums")
    # single-byte changes of content or checksum that keep the framing
    ev = []
    msgs = [S("GNGLL,5327.04319,S,00214.41396,E,223232.00,A,A"), S("GNGLL,5327.04319,S,00214.41396,E,223232.00,A,A", "68"), S("PUBX,40,GLL,1,0,0,0,0,0"), S("GPXXX,a"), S("GPGGA,é,,,,")]
    msgs += [S(gen.content(m, gen.fields_for(m, rng, 1)[1])) for m in rng.sample(cat, N(40, 200))]
    for k, raw in enumerate(msgs):
        full = k < N(1, 12)
        for i in range(1, len(raw) - 2):
            vals = range(256) if full else {raw[i] ^ (1 << b) for b in rng.sample(range(8), 3)} | {rng.randrange(256), raw[i] ^ 0x20}
            for b in vals:
                if b == raw[i] or b in b"$\r\n":
                    continue
                ev.append(pev(raw[:i] + bytes([b]) + raw[i + 1:], 0, 1)[0])
    chk.events(ev, only=only, label="mutations")
    # content of every shape
    ev = []
    for k in range(N(1500, 20000)):
        t = "".join(rng.choice(rng.choice([ASCII, ALNUM, "é€\u00ff", "\u05d0", "\U0001f600"])) for _ in range(rng.randint(0, 40)))
        t = t.replace("*", "").replace("$", "")
        ev.append({"op": "cksum", "s": proj.text(t), "r": proj.text(pynmeagps.calc_checksum(t))})
        tk, mid = rng.choice([("GN", "GLL"), ("P", "UBX"), ("GP", "QQQ")])
        pl = t.split(",")
        e, obj = nev(tk, mid, 0, pl, 0)
        if obj is not None:
            ev.append({"op": "serck", "ser": list(obj.serialize()), "msg": proj.text(t)})
    for x in range(256):          # every checksum value, two cases
        c = "GPQQQ," + chr(33 + x % 8 * 8 if False else 65) + (chr(x ^ 65) if chr(x ^ 65) not in "*$\r\n," and x ^ 65 < 128 else "B")
        for val in (0, 1):
            for ck in (gen.xor(c), gen.xor(c).lower(), f"{x:02X}", f"{x:02x}"):
                ev.append(pev(S(c, ck), 0, val)[0])
    chk.events(ev, only=only, label="content")
    rs = cs.standard_runs(rng, N(60, 800), vals=(0, 1), al=False)
    cs.judge_files(chk, rs, lambda c: c in ("result:kind:msg", "result:error:NMEAParseError"), label="reader")
    return finish(chk, "model_checking")


ALNUM = gen.ALNUM


# ------------------------------------------------------------------ C11
NASTY = ["9" * 400, "1" + "0" * 30, "1e400", "-1e400", "nan", "inf", "-inf", "Infinity", "1_000", "_1", "\u0663", "\u00b2", "\x00", "\x7f", "-", "+", ".", "-.", "+-1", "0x1F", "0b1", "1e", "1E5", "٣.١",
         "999999999", "-1", "-999999999", "1.5", "2.0", " 1", "1 ", "\t2", "00000000000000000003", "None", "True", "null", "[", "]", "[1", "(", "{", "{0}", "%s", "'", '"', "\\", "\\n", "é", "\u2028", "\u00a0", "\ufeff", "\U0001f600"]


def mutate(raw, rng):
    b = bytearray(raw)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        p = rng.randrange(len(b) + 1)
        k = rng.random()
        if k < .3 and b:
            b[p % len(b)] = rng.randrange(256)
        elif k < .5:
            b[p:p] = bytes([rng.choice(b"$*,,\r\n\x00\xff 0-.")])
        elif k < .7:
            del b[p:p + rng.randint(1, 6)]
        elif k < .8:
            b[p:p] = b[max(0, p - 8):p]
        else:
            b[p:p] = rng.choice(NASTY).encode("utf-8")
    return bytes(b)


def refix(raw):
    """recompute the checksum, so that validation lets the sentence through"""
    i = raw.find(b"*")
    if i < 0 or not raw.startswith(b"$"):
        return raw
    x = 0
    for c in raw[1:i]:
        x ^= c
    return raw[:i] + b"*%02X\r\n" % x


def c11():
    chk, rng = Check("C11"), random.Random(core.SEED)
    cat = catalog()

    def only(c, e):
        k = kind_of(c)
        return broken(c) or (k is not None and (k[2].startswith(("exc", "hang")) or k[0] == "malformed" or (k[0] == "" and k[1] == "rej")))
    ev = []
    uds = [{"ZZ1": [{"k": "a", "n": "n", "t": "IN"}, {"k": "g", "n": "g", "c": "att", "i": 0, "m": "n", "d": [{"k": "a", "n": "x", "t": "DE"}, {"k": "g", "n": "h", "c": "att", "i": 0, "m": "n", "d": [{"k": "a", "n": "y", "t": "ST"}]}]}]}]
    # every definition with nasty field texts, counts included
    for m in cat:
        base = gen.fields_for(m, rng, 2)[1]
        cnt = sorted({el["m"] for el in m.d if el["k"] == "g" and el["c"] == "att"})
        names = [n for n, _ in gen.fields_for(m, rng, 2)[0]]
        for val in (0, 1, 2, 3):
            for j in rng.sample(range(len(base)), min(len(base), N(2, 12))) if base else []:
                tx = list(base)
                tx[j] = rng.choice(NASTY)
                ev.append(pev(S(gen.content(m, tx)), rng.choice([m.mode, m.mode, 0, 1, 2]), val)[0])
        for c in cnt:
            j = names.index(c)
            for t in rng.sample(NASTY, N(8, len(NASTY))) + ["9", "99", "999999999", "-3", "", "0"]:
                tx = list(base)
                tx[j] = t
                ev.append(pev(S(gen.content(m, tx)), m.mode, rng.choice([0, 1, 3]))[0])
        for ln in sorted({0, 1, 2, len(base) // 2, len(base) - 1, len(base) + 1, len(base) + 7}):     # too few, too many fields
            tx = (base + [rng.choice(["", "1", "x"]) for _ in range(8)])[:max(0, ln)]
            ev.append(pev(S(gen.content(m, tx)), rng.choice([m.mode, 0, 1, 2]), rng.choice([0, 1, 2, 3]))[0])
    chk.events(ev, uds, only=only, label="definitions")
    ev = []
    for k in range(N(4000, 40000)):
        raw = S(gen.content(m := rng.choice(cat), gen.fields_for(m, rng, rng.randint(0, 2), .2)[1]))
        raw = mutate(raw, rng)
        if rng.random() < .5:
            raw = refix(raw)
        ev.append(pev(raw, rng.choice([m.mode, 0, 1, 2]), rng.choice([0, 0, 1, 2, 3]))[0])
    for k in range(N(2500, 20000)):
        raw = bytes(rng.choice(rng.choice([b"$*,\r\nGPNA012.", bytes(range(256)), b"PUBXGNSHRTL,*$0189ABCDEF"])) for _ in range(rng.randint(0, 24)))
        if rng.random() < .5:
            raw = b"$" + raw
        ev.append(pev(raw, rng.choice([0, 1, 2]), rng.choice([0, 1, 2, 3, 4, 5, 255]))[0])
    # short sentences, exhaustively over a small alphabet
    al = [b"$", b"P", b"U", b"G", b"*", b",", b"0", b"\r\n"]
    import itertools
    for ln in range(0, N(4, 6)):
        for t in itertools.product(al, repeat=ln):
            ev.append(pev(b"".join(t), 0, len(ev) % 4)[0])
    # families keyed by their first field
    for p in gen.PREFIX + ["STMDRSENMSG", "QTMCFGUART", "QTMSN", "QTMCFGGEOFENCE"]:
        for f in ["", ",", ",,", ",A", ",AB", ",1", ",12", ",é", ",\u0663", ",\u0663\u0663", ",40", ",HPR", ",OK", ",ERROR", ",ERROR,1", ",W", ",R", ",1234567890", ", ", ",00,00", ",26", ",30,1,2,3"] + ["," + x for x in NASTY]:
            for mode in (0, 1, 2):
                ev.append(pev(S("P" + p + f), mode, rng.choice([0, 1, 2, 3]))[0])
    for t in NASTY + ["2", "3"]:
        for v in (0, 1, 2, 3):
            ev.append(pev(S(f"GPZZ1,{t},1,a,b,2,c,d"), rng.choice([0, 1, 2]), v, 1, {"ZZ1": lib(uds[0]["ZZ1"])})[0])
    chk.events(ev, uds, only=only, label="fuzz")
    # long sentences end promptly
    t = []
    for big in ["GNGSV,1,1,99999999,7," + "1,2,3,4," * 3000, "GNTXT,1,1,1," + "A" * 200000, "PQTMCFGUART," + "1," * 20000, "GNQQQ" + ",x" * 20000, "PSTMSBAS" + ",9" * 5000,
                "G" * 100000, "GNRTE,1,1,c,0" + ",WPT" * 20000, "PSSNSNC,1,2,99999," + ",".join(["[1", "2]"] * 3000)]:
        for v in (0, 1, 3):
            k, m = guard(NMEAReader.parse, S(big), validate=v, limit=20)
            t.append({"op": "kind", "what": "long " + big[:12], "kind": k, "allowed": ["ok", "NMEAParseError", "NMEATypeError", "NMEAMessageError"]})
    chk.events(t, label="long")
    # text, with characters that have no UTF-8 form, and things that are no sentence at all
    t = []
    texts = []
    for k in range(N(400, 4000)):
        m = rng.choice(cat)
        u = gen.content(m, gen.fields_for(m, rng, rng.randint(0, 2), .2)[1])
        ck = gen.xor(u)
        u = "$" + u + "*" + ck + "\r\n"
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.choice([0, 1, 2, 3, 4, u.find(","), u.find("*"), u.find("*") + 1, len(u), rng.randrange(len(u) + 1)])
            u = u[:i] + rng.choice(["\udc80", "\ud800", "\udfff", "\ud83d\ude00", "\udcff\udc80"]) + u[i + rng.choice([0, 0, 1]):]
        texts.append(u)
    for u in texts + ["\udc80", "$\udc80", "$GNTXT,\udc80", "*\udc80", "$*\udc80\r\n", "", "$", None, 5, 1.5, [], bytearray(S("GPHDT,1,T")), memoryview(S("GPHDT,1,T"))]:
        for v in (0, 1, 2, 3):
            k, m = guard(NMEAReader.parse, u, msgmode=rng.choice([0, 0, 1, 2]), validate=v)
            t.append({"op": "kind", "what": ascii(u)[:60] + f" validate={v}", "kind": k, "allowed": ["ok", "NMEAParseError", "NMEATypeError", "NMEAMessageError"]})
        k, m = guard(pynmeagps.nmeahelpers.get_parts, u)
        t.append({"op": "kind", "what": "get_parts " + ascii(u)[:60], "kind": k, "allowed": ["ok", "NMEAMessageError"]})
    chk.events(t, label="text")
    # the same through readers
    rs = []
    for k in range(N(300, 4000)):
        d = b"".join(rng.choice([mutate(cs.any_sentence(rng, cat, "all")[0], rng), cs.junk(rng), cs.any_sentence(rng, cat, "all")[0], bytes(rng.randrange(256) for _ in range(rng.randint(0, 30)))]) for _ in range(rng.randint(1, 5)))
        o = runs.options(quit=rng.choice([0, 1, 2]), nmeaonly=rng.random() < .5, handler=rng.random() < .5, mode=rng.choice([0, 1, 2]), val=rng.choice([0, 1, 2, 3]))
        rs.append(runs.file_run(d, o, iterate=rng.random() < .3, stream=rng.choice([io.BytesIO, runs.ByteStream])))
    cs.judge_files(chk, rs, lambda c: "exc:" in c or "hang" in c or c.startswith("end:"), label="reader")
    return finish(chk, "model_checking")


# ------------------------------------------------------------------ C12
WIRE = ("talker", "msgID", "payload", "checksum", "serialize", "mode")


def again(obj, rng):
    """serializing has no side effects and gives the same bytes every time"""
    a = obj.serialize()
    before = proj.msg(obj)
    for _ in range(3):
        rng.choice([lambda: str(obj), lambda: repr(obj), lambda: obj.identity, lambda: obj.payload, lambda: obj.serialize()])()
    return same([list(a), before], [list(obj.serialize()), proj.msg(obj)], "serialize again", msg=a.decode("utf-8", "replace"))


def c12():
    chk, rng = Check("C12"), random.Random(core.SEED)

    def only(c, e):
        return c in WIRE or c.startswith("same:") or broken(c)
    ev = []
    for m in catalog():
        for rep in range(N(4, 30)):
            nt, tx = gen.fields_for(m, rng, rng.randint(0, 3), .05)
            if rng.random() < .3:
                tx = tx[:rng.randint(0, len(tx))] if rng.random() < .5 else tx + ["z", "", "1"][:rng.randint(1, 3)]
            tk = m.talker if m.talker == "P" else rng.choice(gen.D["talkers"][:-1] if gen.D["talkers"][-1] == "P" else gen.D["talkers"])
            if tk == "P" and m.talker != "P":
                tk = "GN"
            c = ",".join([tk + m.id] + tx)
            ck = rng.choice([None, None, "00", gen.xor(c).lower(), "zz", "1", ""])
            e, obj = pev(S(c, ck), rng.choice([m.mode, m.mode, m.mode, 0, 1, 2]), 0 if ck is not None else rng.choice([0, 1]))
            ev.append(e)
            if obj is not None and rep == 0:
                ev.append(again(obj, rng))
    # unknown messages and any field text
    for k in range(N(2500, 25000)):
        tk = rng.choice(["GN", "GP", "P", "XX", "Q", "", "ZZ", "AI"])
        mid = rng.choice(["", "QQQ", "gll", "GLLX", "A", "QTMXYZ", "UBX", "Hdt", "TNL", "ASHR", "FEC", "SSN"])
        pl = ["".join(rng.choice(rng.choice([ASCII.replace(",", "").replace("*", "").replace("$", ""), "é€", "[]", "\\'\""])) for _ in range(rng.randint(0, 9))) for _ in range(rng.randint(0, 7))]
        e, obj = pev(S(",".join([tk + mid] + pl)), rng.choice([0, 1, 2]), rng.choice([0, 1]))
        ev.append(e)
        if obj is not None and k % 7 == 0:
            ev.append(again(obj, rng))
    # brackets, blanks, signs and zeros must survive
    for c in ["PSSNSNC,1,2,3,[a,b],[c]", "PSSNSNC,[1,2],[3", "GNGLL,-5327.0,S,+0214.4,E,1,A,A", "GNGGA, 1 ,2,,,,,,,,,,,", "GPHDT,001.50,T", "GPHDT,+1.5,T", "GPHDT,1e1,T", "PUBX,00,x", "GPZDA,1,01,02,2020,00,-00",
              "gpgll,1", "GNTXT,01,01,02,a b  c ", "GNTXT,01,01,02, ", "PASHR,POS,0,10", "pASHR,POS"]:
        for v in (0, 1):
            e, obj = pev(S(c), 0, v)
            ev.append(e)
            if obj is not None:
                ev.append(again(obj, rng))
    chk.events(ev, only=only, label="sentences")
    ev = []
    for f in cs.logs():
        fr = runs.frames(open(f, "rb").read())
        for raw in (fr if core.thorough() else fr[:: max(1, len(fr) // 80)]):
            if raw.endswith(b"\r\n"):
                ev.append(pev(raw, 0, rng.choice([0, 1]))[0])
    chk.events(ev, only=only, label="logs")
    return finish(chk, "model_checking")


# ------------------------------------------------------------------ C13
def sets(chk, rng, n, cat=None, many=None):
    ev = []
    for m in cat or catalog():
        counted = any(el["k"] == "g" for el in m.d)
        for rep in range(n):
            p = [1, 0, .5, .8, .2][rep % 5]
            reps = (rng.choice(many) if many else rng.randint(0, 3)) if counted else 1
            nt, kw = gen.kwargs_for(m, rng, reps, p)
            kw = gen.variant_kw(m, kw, nt, rng)
            e, _ = bev(m.talker, m.id, m.mode, kw, val=rng.choice([0, 1, 3]), hp=rep % 3 == 1, bval=rng.choice([1, 3]))
            ev.append(e)
    return ev


def c13():
    chk, rng = Check("C13"), random.Random(core.SEED)

    def only(c, e):
        return (c.startswith(("b:", "rt:")) and c != "b:str" and not c.startswith("b:hemi")) or broken(c)
    chk.events(sets(chk, rng, N(8, 60)), only=only, label="build")
    # one attribute at a time
    ev = []
    for m in catalog():
        nt, full = gen.kwargs_for(m, rng, 2, 1)
        full = gen.variant_kw(m, full, nt, rng)
        keep = {k: v for k, v in full.items() if k in m.fixed or any(k == el["m"] for el in m.d if el["k"] == "g")}
        need = gen.variant_kw(m, {}, nt, random.Random(7))
        for n, t in (nt if core.thorough() else rng.sample(nt, min(4, len(nt)))):
            if n in full:
                ev.append(bev(m.talker, m.id, m.mode, {**keep, **{k: full[k] for k in need}, n: full[n]}, hp=rng.random() < .5)[0])
    # edge values of every type, in user-independent messages
    for v in [0, -0.0, 0.1, 1e-7, -1e-7, 89.9999999, 59.99999999, 90.0, -90.0, 0.5 / 60, 29.9999999, 1 / 3, 12.345678949, -12.3456789]:
        for hp in (False, True):
            ev.append(bev("GN", "GLL", 0, {"lat": v, "lon": v * 2, "status": "A"}, hp=hp)[0])
    for v in [0, 0.0, 1, -1, 1.5, -2.25, 100, 1e5, 123456.789, 0.001, -0.001, 10 ** 9, 99999999.5]:
        ev.append(bev("GN", "GGA", 0, {"alt": v, "HDOP": v, "numSV": int(v)})[0])
    for v in [2 ** 31, -2 ** 31 - 1, 2 ** 53 - 1, 2 ** 53 + 1, -2 ** 53 - 1, 2 ** 63, 2 ** 64 + 1, 10 ** 20 + 1, -10 ** 22 - 7, 123456789012345678901234567890]:
        ev.append(bev("GN", "GGA", 0, {"numSV": v, "diffAge": v})[0])
    for y, mo, d in [(1969, 1, 1), (1999, 12, 31), (2000, 2, 29), (2024, 2, 29), (2068, 12, 31)]:
        ev.append(bev("GN", "RMC", 0, {"date": gen.date(y, mo, d), "time": gen.time(23, 59, 59, 990000)})[0])
    chk.events(ev, only=only, label="single")
    # in a process that has been running for a while
    chk.events(core.later("C13"), only=only, label="later")
    return finish(chk, "model_checking")


# ------------------------------------------------------------------ C14
def walk_behaviours(chk, label="MCWalk"):
    r = mc(chk, "MCWalk", {"bodies": 7, "maxlen": N(9, 13)}, label)
    b = [json.loads(x) for x in r.lines]
    chk.exhaustive[label] = f"every definition of 6 prefixes x 5 group kinds x 7 bodies x 4 tails, payloads of 0..{N(9, 13)} fields, 7 counts: {len(b)} behaviours"
    return b


def attr_names(m):
    cls = set(dir(type(m)))
    return sorted(n for n in dir(m) if n[0] != "_" and n not in cls)


def walk_check(b, k, via):
    """Replay one behaviour of MCWalk; '' or what differs"""
    d, pl, st, out = lib(b["d"]), b["pl"], b["st"], b["out"]
    tab = {"ZZW": d}
    if via == "parse":
        kind, m = guard(NMEAReader.parse, S(",".join(["GPZZW"] + pl)), msgmode=k % 3, validate=[1, 3, 0][k % 7 % 3], userdefined=tab)
    elif via == "reader":
        raw = S("GPHDT,1,T") + S(",".join(["GPZZW"] + pl)) + S("GPHDT,2,T")
        if k % 3:
            raw = S(",".join(["GPZZW"] + pl))
        kind, rd = guard(NMEAReader, io.BytesIO(raw), msgmode=k % 3, validate=3, userdefined=tab, quitonerror=2)
        if kind == "ok" and not k % 3:
            guard(rd.read)
        if kind == "ok":
            kind, m = guard(rd.read)
            m = m[1] if kind == "ok" else None
    else:
        kind, m = guard(NMEAMessage, *(("GP", "ZZW"), ("XX", "ZZW"))[k % 5 == 3], k % 3, payload=list(pl), validate=1 if k % 5 == 3 else 3, userdefined=tab)
    if st == "error":
        return "" if kind == "NMEATypeError" else "walk:kind:" + kind
    if kind != "ok" or m is None:
        return "walk:kind:" + kind
    if attr_names(m) != sorted(out):
        return "walk:names"
    for n, f in zip(out, pl):
        v = getattr(m, n)
        if n == "num" and f != "":
            if v != int(f):
                return "walk:value"
        elif v != f:
            return "walk:value"
    if m.payload != pl:
        return "walk:payload"
    s = "".join(f", {n}={getattr(m, n)}" for n in out)
    if str(m) not in (f"<NMEA(GPZZW{s})>", f"<NMEA(XXZZW{s})>"):
        return "walk:order"
    return ""


def replay_walk(chk, bs, vias):
    for k, b in enumerate(bs):
        via = vias[k % len(vias)]
        c = walk_check(b, k // len(vias), via)
        chk.traces += 1
        if c:
            chk.violation([c], {"model": "MCWalk", "via": via, "definition": b["d"], "fields": b["pl"], "expected": b["out"], "status": b["st"]})
        if k % max(1, len(bs) // 4) == 1:
            chk.sample({"definition": b["d"], "fields": b["pl"], "attributes": b["out"]})
    chk.notes["replayed_walks"] = len(bs)


def walk_defs(bs):
    """the distinct definitions of the behaviours"""
    seen = {}
    for b in bs:
        seen.setdefault(json.dumps(b["d"]), b["d"])
    return list(seen.values())


def built_walks(rng, defs, n):
    """keyword builds of the definitions of MCWalk: events with their own user tables"""
    ev, uds = [], []
    for d in defs if n is None else rng.sample(defs, min(n, len(defs))):
        uds.append({"ZZW": d})
        for reps in (0, 1, 2, 3):
            m = gen.Msg("USER", "ZZW", "GP", "ZZW", reps % 3, {}, d)
            nt, kw = gen.kwargs_for(m, rng, reps, rng.choice([1, .6]))
            # fields after an indeterminate group read back as part of the group: no round trip there
            rt = not any(el["k"] == "g" and el["c"] == "ind" for el in d[:-1])
            ev.append(bev("GP", "ZZW", reps % 3, kw, val=3, ud=len(uds), udt={"ZZW": lib(d)}, bval=3, rt=rt)[0])
    return ev, uds


def c14():
    chk, rng = Check("C14"), random.Random(core.SEED)
    bs = walk_behaviours(chk)
    replay_walk(chk, bs, ["parse", "new", "reader"])

    def only(c, e):
        if e["op"] == "build":
            return c in ("b:fieldcount", "b:names", "rt:names") or c.startswith(("b:field:ST:", "rt:ST:", "b:value:ST:")) or c.startswith("b:kind") or broken(c)
        return c in ("groups", "names") or c.startswith("value:ST") or (kind_of(c) and kind_of(c)[2].startswith("exc"))
    ev, uds = built_walks(rng, walk_defs(bs), N(120, None))
    chk.events(ev, uds, only=only, label="keyword builds")
    # the groups of the built-in definitions, as text layouts and as they are
    ev, uds = [], []
    grp = [m for m in catalog() if any(el["k"] == "g" for el in m.d)]
    for m in grp:
        td = text_def(m.d)
        uds.append({"ZZG": td})
        tm = gen.Msg("USER", "ZZG", "GP", "ZZG", m.mode, {}, td)
        for reps in range(0, N(4, 8)):
            for rep in range(N(2, 8)):
                nt, tx = gen.fields_for(tm, rng, reps)
                cut = rng.choice([len(tx), len(tx), rng.randint(0, len(tx))])
                tx = tx[:cut] + (["s%d" % i for i in range(rng.randint(1, 4))] if cut == len(tx) and rng.random() < .3 else [])
                ev.append(pev(S(gen.content(tm, tx)), m.mode, rng.choice([1, 3]), len(uds), {"ZZG": lib(td)})[0])
        for reps in [rng.choice([9, 10, 11, 19]), rng.choice([99, 100, 101, 130])]:     # numbers of two and three digits
            for cut in [0, 1]:
                tx = gen.fields_for(tm, rng, reps)[1]
                if len(tx) < 1500:
                    ev.append(pev(S(gen.content(tm, tx[:len(tx) - cut])), m.mode, 1, len(uds), {"ZZG": lib(td)})[0])
    # hundreds of groups
    a = lambda n, t="ST": {"k": "a", "n": n, "t": t}  # noqa: E731
    g = lambda c, d, i=0: {"k": "g", "n": "g", "c": c, "i": i, "m": "n" if c == "att" else "", "d": d}  # noqa: E731
    for reps in [rng.choice([255, 256, 257]), rng.choice([260, 300, 400])] + N([], [512, 700, 999, 1000, 1001]):
        for d in ([g("ind", [a("x")])], [a("n", "IN"), g("att", [a("x")])], [g("fix", [a("x")], reps)], [a("n", "IN"), g("att", [a("x"), {"k": "g", "n": "h", "c": "fix", "i": 1, "m": "", "d": [a("y")]}])]):
            uds.append({"ZZG": d})
            tx = ([str(reps)] if d[0]["k"] == "a" else []) + [f"v{i}" for i in range(reps * (2 if len(d[-1]["d"]) > 1 else 1))]
            ev.append(pev(S(",".join(["GPZZG"] + tx)), rng.choice([0, 1, 2]), 1, len(uds), {"ZZG": lib(d)})[0])
    chk.events(ev, uds, only=only, label="group layouts")
    ev = []
    for m in grp:
        for reps in range(0, N(5, 14)):
            nt, tx = gen.fields_for(m, rng, reps)
            ev.append(pev(S(gen.content(m, tx)), m.mode, 1)[0])
            ev.append(pev(S(gen.content(m, tx[:rng.randint(0, len(tx))])), m.mode, 1)[0])
            ev.append(pev(S(gen.content(m, tx + ["7"] * rng.randint(1, 5))), m.mode, 1)[0])
    chk.events(ev, only=lambda c, e: c == "groups", label="built-in groups")
    ev = sets(chk, rng, N(6, 40), grp)
    ev += sets(chk, rng, 1, grp, [10, 12, 100, 115])
    chk.events(ev, only=lambda c, e: c in ("b:fieldcount",) and e["op"] == "build", label="built-in builds")
    return finish(chk, "model_checking")


# ------------------------------------------------------------------ C15
def c15():
    chk, rng = Check("C15"), random.Random(core.SEED)

    def only(c, e):
        k = kind_of(c)
        if k:
            return k[0] == "" and (k[1] in ("rej", "msg")) and not (k[1] == "msg" and k[2] == "NMEATypeError" and False)
        return c in ("identity", "talker", "msgID", "names", "payload") or c.startswith(("new:kind", "b:kind:talker", "b:kind:id", "b:kind:nodef", "b:names", "value:ST:field_")) or (c == "str" and e.get("nominal")) or broken(c)
    ids = sorted(gen.D["ids"]) + sorted(gen.D["idsprop"])
    tabs = {}
    for m in catalog():
        tabs.setdefault((m.id, m.mode), []).append(m)
    ev = []
    for i in ids:                                 # every id in every mode under every flag combination
        for mode in (0, 1, 2):
            for val in (0, 1, 2, 3):
                ms = tabs.get((i, mode), [])
                tk = "P" if i in gen.D["idsprop"] else "GN"
                for m in (ms or [None]):
                    tx = gen.fields_for(m, rng, 1)[1] if m else [rng.choice(["", "a", "1"]) for _ in range(rng.randint(0, 4))]
                    ev.append(pev(S(",".join([tk + i] + tx)), mode, val)[0])
    for m in catalog():
        for val in (0, 1, 2, 3):
            tx = gen.fields_for(m, rng, 1)[1]
            ev.append(pev(S(gen.content(m, tx)), m.mode, val)[0])
            if m.talker == "P" and m.id in gen.PREFIX and tx:      # first field in either case
                tx = [tx[0].lower()] + tx[1:]
                ev.append(pev(S(gen.content(m, tx)), m.mode, val)[0])
        e, _ = nev(m.talker, m.id, m.mode, gen.fields_for(m, rng, 1)[1], 3)
        ev.append(e)
        for mode in (0, 1, 2):
            if mode != m.mode:
                ev.append(pev(S(gen.content(m, gen.fields_for(m, rng, 1)[1])), mode, rng.choice([0, 1, 2, 3]))[0])
    # every talker, known and unknown
    for tk in gen.D["talkers"] + ["XX", "ZQ", "G", "", "gn", "A1"]:
        for mid in ["GLL", "GGA", "QQQ", "DTM"]:
            for val in (0, 1, 2, 3):
                ev.append(pev(S(f"{tk}{mid},1,2"), 0, val)[0])
                ev.append(nev(tk, mid, 0, ["", ""], val)[0])
    # near misses of known ids
    for i in rng.sample(ids, min(len(ids), N(150, 1000))):
        for j in (i + "X", i[:-1], i.lower(), i[1:], "X" + i, i.capitalize()):
            tk = "P" if i in gen.D["idsprop"] else "GN"
            ev.append(pev(S(f"{tk}{j},1,b,"), rng.choice([0, 1, 2]), rng.randint(0, 3))[0])
    for p in gen.PREFIX:
        for j in (p + "Q", p + "00", p[:-1], p[1:], p.lower(), p + p, p[0] + p):
            for mode in (0, 1, 2):
                ev.append(dict(pev(S(f"P{j},1,b,"), mode, rng.choice([0, 0, 1, 1, 3]))[0], nominal=1))
                ev.append(dict(pev(S(f"{rng.choice(['GN', 'P'])}{j},{rng.choice(['00', 'GPATT', '40', '', 'VHD'])},2"), mode, rng.choice([0, 1, 3]))[0], nominal=1))
        for f in ["", "00", "40", "41", "ZZ", "POS", "pos", "HPR", "Q", "QX", "1", "12", "121212.00", "A1", "1A", "x" * 9]:
            for mode in (0, 1, 2):
                for val in (0, 1, 2, 3):
                    ev.append(pev(S(f"P{p},{f},1,2"), mode, val)[0])
            for tk in ("GN", "GP", "XX", "PG"):      # the same ids from another talker
                ev.append(pev(S(f"{tk}{p},{f},1,2"), rng.choice([0, 1, 2]), rng.randint(0, 3))[0])
                ev.append(nev(tk, p, rng.choice([0, 1, 2]), [f, "1"], rng.randint(0, 3))[0])
    for m in catalog():                              # standard ids as proprietary, proprietary ids from any talker
        for tk in ("P", "GN", "XX", "II"):
            ev.append(pev(S(gen.content(m, gen.fields_for(m, rng, 1)[1]).replace(m.talker, tk, 1)), m.mode, rng.randint(0, 3))[0])
    for _ in range(N(300, 4000)):     # nothing known about it: nominal attributes
        n = rng.choice([0, 1, 2, 9, 10, 11, rng.randint(0, 30), 100, 120])
        c = ",".join([rng.choice(["GN", "P", "XX"]) + rng.choice(["QQQ", "ZZZZZ", "A", "UB"])] + ["".join(rng.choice(ALNUM) for _ in range(rng.randint(0, 3))) for _ in range(n)])
        ev.append(dict(pev(S(c), rng.choice([0, 1, 2]), rng.randint(0, 3))[0], nominal=1))
    chk.events(ev, only=only, label="selection")
    # user-defined tables: standard before proprietary before user-defined
    a = [{"k": "a", "n": "u1", "t": "ST"}, {"k": "a", "n": "u2", "t": "ST"}]
    ud = {k: a for k in ["GLL", "UBX", "UBX00", "UBX40", "QTMVERNO", "QTMCFGUART", "ZZZ", "zzz", "GLLX", "ASHRPOS", "GGA", "HDT", "QTMQQQ", "FEC", "STMDRSENMSG", "UBXQ", "FECX", "SSNSNC", "TNLZ", "ASHRX", "GPPADV1"]}
    udt = {k: lib(v) for k, v in ud.items()}
    ev = []
    for k in list(ud) + ["ZZY", "Zzz", "zzZ"]:
        for tk in ("GN", "P", "XX"):
            for mode in (0, 1, 2):
                for val in (0, 1, 2, 3):
                    ev.append(pev(S(f"{tk}{k},a,b"), mode, val, 1, udt)[0])
                    ev.append(nev(tk, k, mode, ["a", "b"], val, None, 1, udt)[0])
    for m in catalog():
        ev.append(pev(S(gen.content(m, gen.fields_for(m, rng, 1)[1])), m.mode, rng.randint(0, 3), 1, udt)[0])
    chk.events(ev, [ud], only=only, label="user tables")
    # building: unknown talkers, ids and modes
    ev = []
    for m in catalog():
        for mode in (0, 1, 2):
            for val in (0, 3):
                nt, kw = gen.kwargs_for(m, rng, 1, 0)
                ev.append(bev(rng.choice([m.talker, m.talker, "XX"]), m.id, mode, gen.variant_kw(m, kw, nt, rng), val=val, rt=False)[0])
    for m in catalog():                              # the id of a prefix family in either case, too
        if "msgId" in m.fixed or m.id in gen.PREFIX:
            for f in (str.lower, str.title, str.swapcase, str):
                nt, kw = gen.kwargs_for(m, rng, 1, 0)
                kw = gen.variant_kw(m, kw, nt, rng)
                if "msgId" in kw:
                    ev.append(bev(m.talker, m.id, m.mode, dict(kw, msgId=f(kw["msgId"])), val=rng.choice([0, 1, 3]), rt=False)[0])
    chk.events(ev, only=only, label="building")
    rs = cs.standard_runs(rng, N(40, 500), kinds="good", vals=(0, 2, 3), al=False, logfiles=False)
    cs.judge_files(chk, rs, lambda c: c.startswith("result") and ("identity" in c or "names" in c or "kind" in c), label="reader")
    return finish(chk, "model_checking")


# ------------------------------------------------------------------ C16
NEARACK = [["OK1"], ["OKAY"], ["ok"], ["Ok"], ["OK "], [" OK"], ["NOK"], ["O"], ["K"], ["OK", ""], ["OK", "1"], ["", "OK"], ["ERROR"], ["ERROR", "1", "2"], ["ERRORS", "1"], ["ERR", "1"], ["error", "1"], ["ERROR ", "1"], ["XERROR", "1"],
           ["1", "ERROR"], ["", "1"], [""], ["OK", "ERROR"], ["ERROR", "OK", ""], ["OK*"]]


def select_check(b):
    names = sorted(set(b["names"]))
    mode = b["mode"]
    out = []
    if b["how"] == "fields":
        raw = S(",".join(["P" + b["id"]] + b["pl"]))
        calls = [("parse", lambda: NMEAReader.parse(raw, msgmode=mode)), ("new", lambda: NMEAMessage("P", b["id"], mode, payload=list(b["pl"]))),
                 ("reader", lambda: NMEAReader(io.BytesIO(raw), msgmode=mode, quitonerror=2).read()[1])]
    else:
        v = 0 if b["first"] == "zero" else b["first"]
        kw = {}
        for k in b["kws"]:
            kw[k] = {"msgtype": v if v else "0"}.get(k, 0.0 if k == "lon1" else "OK" if k == "status" else 0 if b["first"] == "zero" else int(b["first"]))
        calls = [("build", lambda: NMEAMessage("P", b["id"], mode, **kw))]
    for how, fn in calls:
        kind, m = guard(fn)
        if b["res"] == "none":
            if kind != "ok" or m is None or attr_names(m) != [f"field_{i + 1:02d}" for i in range(len(b["pl"]))]:
                out.append("select:%s:none:%s" % (how, kind))
        elif b["err"]:
            if kind == "ok":           # a value of the wrong type: layouts are compared on the well-typed payloads
                out.append("select:%s:accepted" % how)
        elif kind != "ok" or m is None:
            out.append("select:%s:%s" % (how, kind))
        elif attr_names(m) != names:
            out.append("select:%s:layout" % how)
    return out


def c16():
    chk, rng = Check("C16"), random.Random(core.SEED)
    r = mc(chk, "MCSelect", {}, "MCSelect")
    bs = [json.loads(x) for x in r.lines]
    chk.exhaustive["MCSelect"] = f"9 ids x 3 modes x 0..16 fields x 16 first fields, and every subset of the discriminating keywords: {len(bs)} selections"
    for k, b in enumerate(bs):
        chk.traces += 1
        c = [x for x in select_check(b) if not x.endswith(":accepted")]
        if c:
            chk.violation(c, b)
        if k % 1500 == 7:
            chk.sample(b)

    def only(c, e):
        k = kind_of(c)
        return c in ("names", "b:names", "rt:names", "b:fieldcount", "identity") or c.startswith("b:kind") or (k and k[1] in ("msg", "rej") and k[0] == "") or broken(c)
    var = [m for m in catalog() if m.id in gen.VARIANT_BASE + ("STMDRSENMSG",)]
    ev = []
    for m in var:
        for rep in range(N(10, 80)):
            nt, tx = gen.fields_for(m, rng, 1)
            ev.append(pev(S(gen.content(m, tx)), m.mode, rng.choice([1, 3]))[0])
            ev.append(nev("P", m.id, m.mode, tx, 1)[0])
    # a well-typed payload of every other length
    for m in var:
        nt, tx = gen.fields_for(m, rng, 1)
        for ln in range(0, 18):
            t2 = (tx + ["1"] * 18)[:ln]
            for mode in (0, 1, 2):
                ev.append(pev(S(gen.content(m, t2)), mode, 1)[0])
    # a discriminating field that is nearly one of those known
    for m in var:
        nt, tx = gen.fields_for(m, rng, 1)
        if not tx:
            continue
        t0 = tx[0]
        for t in {"0" + t0, "00" + t0, t0 + "0", t0 + " ", " " + t0, "+" + t0, "-" + t0, t0 + ".0", t0 + "A", "A" + t0, t0.lower(), t0.swapcase(), t0[:1], t0[1:], t0 * 2, "", "0x" + t0, "1_0"}:
            ev.append(pev(S(gen.content(m, [t] + tx[1:])), m.mode, rng.choice([1, 3]))[0])
            if t != t0 and rng.random() < .3:
                ev.append(nev("P", m.id, m.mode, [t] + tx[1:], 1)[0])
    for t in ("030", "30", "31", "3", "300", " 30", "30 ", "+30", "-30", "30.0", "3_0", "", "0", "011", "11", "1"):
        for k in range(N(1, 5)):
            ev.append(bev("P", "STMDRSENMSG", rng.choice([0, 0, 1, 2]), {"msgtype": t}, val=rng.choice([1, 3]))[0])
    chk.events(ev, only=only, label="variants")
    # acknowledgements of every QTM message
    ev = []
    for i in sorted(gen.D["idsprop"]):
        if i.startswith("QTM"):
            for tx in (["OK"], ["ERROR", "1"], ["ERROR", "3"], ["ERROR", ""], ["ERROR", "12"]):
                for val in (1, 3):
                    ev.append(pev(S(",".join(["P" + i] + tx)), 0, val)[0])
                ev.append(nev("P", i, 0, tx, 1)[0])
            # what is nearly an acknowledgement is data
            for tx in rng.sample(NEARACK, N(7, len(NEARACK))) + [["OK1"], ["ERRORS", "1"]]:
                ev.append(pev(S(",".join(["P" + i] + tx)), rng.choice([0, 0, 0, 1, 2]), rng.choice([1, 3]))[0])
    chk.events(ev, only=lambda c, e: only(c, e) or c.startswith("value") or c.startswith("new:"), label="acks")
    ev = []
    for m in var:
        for rep in range(N(12, 100)):
            nt, kw = gen.kwargs_for(m, rng, 1, rng.choice([0, .5, 1]))
            ev.append(bev("P", m.id, m.mode, gen.variant_kw(m, kw, nt, rng), val=rng.choice([1, 3]))[0])
    chk.events(ev, only=only, label="variant builds")
    return finish(chk, "model_checking")


# ------------------------------------------------------------------ C17
TYPES = ["CH", "ST", "LAD", "LND", "QS", "HX", "DT", "DTL", "DM", "LA", "LN", "DE", "IN", "TM"]


def type_texts(t, rng, n):
    out = ["", "0", "00", "-0", "1", "x", "-1", "+1", "1.5", "-1.5", ".5", "5.", "007", "1e3", " ", "  ", "\t", "_", " 1", "1 ", "1_0", "+", "1048", "10481", "104812.", "104812.1234567", "1048123"] + gen.BADS.get(t, [])
    out += [gen.good_text(t, rng) for _ in range(n)] + [gen.any_text(t, rng, .5) for _ in range(n // 2)]
    for _ in range(n // 2):
        g = gen.good_text(t, rng)
        if g:
            p = rng.randrange(len(g))
            out.append(g[:p] + rng.choice("0123456789.-+ xEe,"[:-2]) + g[p + rng.randint(0, 1):])
    return [x.replace(",", "") for x in out]


def c17():
    chk, rng = Check("C17"), random.Random(core.SEED)

    def only(c, e):
        k = kind_of(c)
        if k:
            return k[0] == "" and (k[1] == "type" or k[2] == "NMEATypeError" or k[2].startswith("exc"))
        return c.startswith("value:") or c == "names" or broken(c)
    ev = []
    for m in catalog():
        for rep in range(N(10, 80)):
            nt, tx = gen.fields_for(m, rng, rng.randint(0, 3) if rep else 1, 0 if rep % 3 else .04)
            ev.append(pev(S(gen.content(m, tx)), m.mode, rng.choice([1, 3]))[0])
        # each field in turn is malformed or empty
        nt, tx = gen.fields_for(m, rng, 1)
        for j in range(len(tx)):
            if nt[j][0] in m.fixed or m.key in ("QTMACK", "QTMNAK"):
                continue
            for t in ("", rng.choice(gen.BADS.get(nt[j][1], ["x"]))):
                t2 = list(tx)
                t2[j] = t
                ev.append(pev(S(gen.content(m, t2)), m.mode, 1)[0])
    chk.events(ev, only=only, label="definitions")
    # every type on its own, by a user-defined definition of one attribute
    ev = []
    ud = {"ZZ" + t: [{"k": "a", "n": "v", "t": t}] for t in TYPES}
    udt = {k: lib(v) for k, v in ud.items()}
    for t in TYPES:
        for s in type_texts(t, rng, N(300, 4000)):
            ev.append(pev(S(f"GPZZ{t},{s}"), rng.choice([0, 1, 2]), rng.choice([1, 3]), 1, udt)[0])
    chk.events(ev, [ud], only=only, label="types")
    ev = []
    for f in cs.logs():
        fr = runs.frames(open(f, "rb").read())
        for raw in (fr if core.thorough() else fr[:: max(1, len(fr) // 80)]):
            ev.append(pev(raw, 0, 1)[0])
    chk.events(ev, only=only, label="logs")
    return finish(chk, "model_checking")


# ------------------------------------------------------------------ C18
def has_dir(m):
    t = [el["t"] for el in m.d if el["k"] == "a"]
    n = [el["n"] for el in m.d if el["k"] == "a"]
    return ("lat" in n and "LAD" in t) or ("lon" in n and "LND" in t)


def c18():
    chk, rng = Check("C18"), random.Random(core.SEED)
    ms = [m for m in catalog() if has_dir(m)]
    chk.notes["messages_with_direction"] = len(ms)
    ev = []
    lats = ["0000.00000", "0000.00001", "5206.10000", "8959.99999", "9000.00000", "0030.0", ""]
    lons = ["00000.00000", "00000.00001", "00206.10000", "17959.99999", "18000.00000", "00030.0", ""]
    for m in ms:
        nt, base = gen.fields_for(m, rng, 1)
        pos = {n: j for j, (n, t) in enumerate(nt)}
        ty = [t for n, t in nt]
        for ns in ["N", "S", "", "s", "W", "X", "SS"]:
            for ew in rng.sample(["E", "W", "", "w", "S", "Y", "WW"], N(2, 7)) + ["E", "W"]:
                for k in range(N(1, 3)):
                    tx = list(base)
                    if "lat" in pos:
                        tx[pos["lat"]] = rng.choice(lats)
                    if "lon" in pos:
                        tx[pos["lon"]] = rng.choice(lons)
                    for j, t in enumerate(ty):
                        if t == "LAD":
                            tx[j] = ns
                        elif t == "LND":
                            tx[j] = ew
                    ev.append(pev(S(gen.content(m, tx)), m.mode, rng.choice([1, 3]))[0])
        for k in range(N(4, 30)):
            nt, tx = gen.fields_for(m, rng, 1)
            ev.append(pev(S(gen.content(m, tx)), m.mode, 1)[0])
            cut = rng.randint(0, len(tx))
            ev.append(pev(S(gen.content(m, tx[:cut])), m.mode, 1)[0])
    # the position field gives the magnitude, whatever the letters
    # user-defined tables: letters before the position, twice, in groups, for positions of another type
    A = lambda n, t: {"k": "a", "n": n, "t": t}  # noqa: E731
    pool = [A("lat", "LA"), A("lon", "LN"), A("NS", "LAD"), A("EW", "LND"), A("NS2", "LAD"), A("EW2", "LND"), A("x", "ST"), A("latA", "LA"), A("lonB", "LN")]
    grp = [A("glat", "LA"), A("gNS", "LAD"), A("gEW", "LND"), A("gx", "ST")]
    uds = []
    for k in range(N(60, 500)):
        d = rng.sample(pool, rng.randint(2, 7))
        if rng.random() < .3:
            d = [dict(x, t="DE") if x["n"] in ("lat", "lon") and rng.random() < .5 else x for x in d]
        if rng.random() < .4:
            d.insert(rng.randint(0, len(d)), {"k": "g", "n": "g", "c": "fix", "i": rng.randint(1, 3), "m": "", "d": rng.sample(grp, rng.randint(1, 3))})
        uds.append({"ZZH": d})
    txt = {"LA": lats + ["-5206.1", "+5206.1", "x"], "LN": lons + ["-00206.1", "-0.0", "x"], "LAD": ["N", "S", "S", "", "s", "W"], "LND": ["E", "W", "W", "", "w", "S"], "DE": ["1.5", "-1.5", "0", "-0.0", ""], "ST": ["q", "S", "W"]}
    for k, u in enumerate(uds):
        flat = [t for el in u["ZZH"] for t in ([el["t"]] if el["k"] == "a" else [z["t"] for z in el["d"]] * el["i"])]
        for _ in range(N(8, 16)):
            tx = [rng.choice(txt[t]) for t in flat][:rng.choice([len(flat), len(flat), rng.randint(0, len(flat))])]
            ev.append(pev(S(",".join(["GPZZH"] + tx)), rng.choice([0, 1, 2]), 1, k + 1, {"ZZH": lib(u["ZZH"])})[0])
    chk.events(ev, uds, only=lambda c, e: c.startswith("hemi:") or c in ("value:LA:lat", "value:LN:lon"), label="parse")
    ev = []
    for m in ms:
        nt, kw0 = gen.kwargs_for(m, rng, 1, 0)
        names = dict(nt)
        dirs = [n for n, t in nt if t in ("LAD", "LND")]
        # just off the equator and the Greenwich meridian too, down to the last digit written and below
        near = [x * 10 ** -k * y for k in range(2, 11) for x in (1, -1) for y in (1, 1.6, 8.3)]
        for la in [52.5, -52.5, 0.0, 0.25, -0.25, 90.0, -90.0, -1, 7, -0.0] + rng.sample(near, N(3, 6)):
            for lo in rng.sample([2.5, -2.5, 0.0, 0.25, -0.25, 180.0, -180.0, -100, 7], N(2, 5)) + rng.sample(near, N(2, 4)):
                kw = dict(kw0)
                if "lat" in names:
                    kw["lat"] = la
                if "lon" in names:
                    kw["lon"] = lo
                for n in dirs:          # whatever letter the caller gives
                    if rng.random() < .3:
                        kw[n] = rng.choice(["N", "E"] if rng.random() < .5 else ["S", "W"])
                ev.append(bev(m.talker, m.id, m.mode, gen.variant_kw(m, kw, nt, rng), hp=rng.random() < .5)[0])
    rt = ("rt:LA:lat", "rt:LN:lon", "b:field:LA:lat", "b:field:LN:lon")
    chk.events(ev, only=lambda c, e: c.startswith("b:hemi") or c in rt, label="build")
    return finish(chk, "model_checking")


# ------------------------------------------------------------------ C24
class Untouched:
    """a stream nothing may be read from"""

    def __init__(self):
        self.n = 0

    def read(self, *_):
        self.n += 1
        return b""
    readline = read


def c24():
    chk, rng = Check("C24"), random.Random(core.SEED)
    cat = catalog()
    ev = []
    bad = [-1, 3, 4, 5, 7, 8, 16, 99, 255, 256, -2, -100, 1 << 31, 1 << 70, "0", "GET", "", None, 0.5, 2.5, -0.5, (0,), b"\x00", [0], {0: 0}, {0}, [], bytearray(b"\x00"), "1", 1j, float("nan"), float("inf"), object] + [rng.randint(3, 10**6) for _ in range(N(5, 50))]
    code = lambda m: m if isinstance(m, int) and abs(m) < 2**31 else -99  # noqa: E731
    only = lambda c, e: c.startswith(("kind:mode", "new:mode", "b:kind:mode", "kind:", "same:"))  # noqa: E731
    for mode in bad:
        for k in range(N(12, 60)):
            m = rng.choice(cat)
            raw = rng.choice([lambda: S(gen.content(m, gen.fields_for(m, rng, 1)[1])), lambda: mutate(S(gen.content(m, gen.fields_for(m, rng, 1)[1])), rng), lambda: b"", lambda: b"$", lambda: S("GPQQQ,1", "00"), lambda: b"\xff\xfe*"])()
            e, _ = pev(raw, mode, rng.choice([0, 1, 2, 3]))
            ev.append(dict(e, mode=code(mode)))
            e, _ = nev(rng.choice([m.talker, "XX", ""]), rng.choice([m.id, "QQQ", ""]), mode, rng.choice([[], ["1"], gen.fields_for(m, rng, 1)[1]]), rng.choice([0, 1, 2, 3]))
            ev.append(dict(e, mode=code(mode)))
            nt, kw = gen.kwargs_for(m, rng, 1, rng.choice([0, 1]))
            res, _ = proj.result(NMEAMessage, m.talker, m.id, mode, hpnmeamode=rng.random() < .5, validate=rng.randint(0, 3), **kw)
            ev.append({"op": "kind", "what": f"build mode {mode!r}", "kind": res["kind"], "allowed": ["NMEAMessageError"]})
            st = Untouched()
            kind, r = guard(NMEAReader, st, msgmode=mode, validate=rng.randint(0, 3), quitonerror=rng.choice([0, 1, 2]), nmeaonly=rng.random() < .5)
            ev.append({"op": "kind", "what": f"reader mode {mode!r}", "kind": kind, "allowed": ["NMEAParseError"]})
            ev.append(same(st.n, 0, "read before refusing"))
            if k % 4 == 0:       # a socket: nothing is received (a quiet one would block for ever)
                sk = runs.ScriptedSocket([raw or b"x"])
                kind, r = guard(NMEAReader, sk, msgmode=mode, encoding=rng.choice([0, 1, 3]), quitonerror=rng.choice([0, 1, 2]), nmeaonly=rng.random() < .5)
                ev.append({"op": "kind", "what": f"reader on a socket, mode {mode!r}", "kind": kind, "allowed": ["NMEAParseError"]})
                ev.append(same(sk.calls, 0, "received before refusing"))
                sk.close()
            kind, r = guard(NMEAReader, io.BytesIO(raw), msgmode=mode)
            ev.append({"op": "kind", "what": f"reader mode {mode!r}", "kind": kind, "allowed": ["NMEAParseError"]})
    # the valid modes are always accepted
    for mode in (0, 1, 2):
        for val in (0, 1, 2, 3):
            for q in (0, 1, 2):
                kind, r = guard(NMEAReader, io.BytesIO(b""), msgmode=mode, validate=val, quitonerror=q)
                ev.append({"op": "kind", "what": f"reader mode {mode}", "kind": kind, "allowed": ["ok"]})
                kind, r = guard(NMEAReader, Untouched(), msgmode=mode, validate=val, quitonerror=q, nmeaonly=True, errorhandler=print, userdefined={"ZZZ": {"a": "ST"}})
                ev.append({"op": "kind", "what": f"reader mode {mode}", "kind": kind, "allowed": ["ok"]})
                sk = runs.ScriptedSocket([b"$x"])
                kind, r = guard(NMEAReader, sk, msgmode=mode, validate=val, quitonerror=q)
                ev.append({"op": "kind", "what": f"reader on a socket, mode {mode}", "kind": kind, "allowed": ["ok"]})
                sk.close()
        for k in range(N(200, 3000)):
            m = rng.choice(cat)
            ev.append(pev(S(gen.content(m, gen.fields_for(m, rng, 1)[1])), mode, 1)[0])
            ev.append(nev(m.talker, m.id, mode, gen.fields_for(m, rng, 1)[1], 1)[0])
            res, _ = proj.result(NMEAMessage, m.talker, "QQQ", mode, validate=rng.choice([0, 1]))
            ev.append({"op": "kind", "what": f"valid mode {mode}", "kind": res["kind"], "allowed": ["msg"]})
    chk.events(ev, only=lambda c, e: only(c, e) and not (c.startswith("kind:") and e["op"] == "parse" and kind_of(c)[0] != "mode" and not (kind_of(c)[1] != "rej" and kind_of(c)[2] == "NMEAParseError")), label="modes")
    return finish(chk, "model_checking")


# ------------------------------------------------------------------ C25
def rep_event(obj):
    """eval(repr(obj)) against obj"""
    a = proj.msg(obj)
    ns = {k: v for k, v in vars(pynmeagps).items() if k[0] != "_"}
    res, _ = proj.result(lambda: eval(repr(obj), dict(ns, NMEAMessage=NMEAMessage)))  # noqa: S307
    return {"op": "repr", "m": a, "res": res, "repr": repr(obj)[:400]}


TRICKY = ["'", '"', "'\"", "\\", "\\n", "\\'", "a'b\"c", "\t", "\x00", "\x1b", "\x85", "é", "\u2028", "\U0001f600", "]", "[", ")", "payload=[]", "{x}", "%d", " ", "", "None", "\\x41", "\\u0041", "'''", '"""', "#", ";", "a field_02=1", " field_03=", "field_01=x", ")>", "<NMEA(", ", NOMINAL", "_payload", " lat=1", " text=1", " status=A"]


def c25():
    chk, rng = Check("C25"), random.Random(core.SEED)
    only = lambda c, e: c in ("str", "b:str") or c.startswith("repr") or broken(c)  # noqa: E731
    ev = []
    for m in catalog():
        for rep in range(N(3, 25)):
            nt, tx = gen.fields_for(m, rng, rng.randint(0, 3))
            if rep % 3 == 2:
                for j, (n, t) in enumerate(nt):
                    if t in ("ST", "CH") and n not in m.fixed and rng.random() < .5 and j:
                        tx[j] = rng.choice(TRICKY)
            c = gen.content(m, tx)
            e, obj = pev(S(c, rng.choice([None, None, "00"])), m.mode, 0)
            ev.append(e)
            if obj is not None:
                ev.append(rep_event(obj))
            nt, kw = gen.kwargs_for(m, rng, rng.randint(0, 2), rng.choice([0, .5, 1]))
            e, obj = bev(m.talker, m.id, m.mode, gen.variant_kw(m, kw, nt, rng), rt=False)
            ev.append(e)
            if obj is not None and not (obj.identity[1:] and False):
                ev.append(dict(rep_event(obj), built=1))
    # attribute names of any form
    ud = {"ZZ7": [{"k": "a", "n": n, "t": "ST"} for n in ("class_", "x__", "a_b_", "A", "z9", "payload_", "lat_", "q_01", "n_1_", "talker2", "identity_", "msgId")]}
    udt = {k: lib(v) for k, v in ud.items()}
    evu = []
    for k in range(N(40, 300)):
        e, obj = pev(S(",".join(["GPZZ7"] + [rng.choice(TRICKY + ["1", ""]).replace("$", "") for _ in range(rng.randint(0, 14))])), rng.choice([0, 1, 2]), rng.choice([0, 1, 3]), 1, udt)
        evu.append(e)
    # numbers whose text the specification leaves open are shown all the same
    for x in ["nan", "inf", "-inf", "1e400", "1e-400", "-0", "1_0", " 5", "5 ", "1e22", "00", "-0.0"]:
        kind, m = guard(NMEAReader.parse, S(f"GPZZN,{x},{rng.choice(['1', x])},q"), userdefined={"ZZN": {"a": "DE", "b": "DE", "c": "ST"}})
        if kind == "ok" and m is not None:
            evu.append(same(str(m), f"<NMEA(GPZZN, a={m.a}, b={m.b}, c={m.c})>", "string form of odd numbers"))
    only = lambda c, e: c in ("str", "b:str") or c.startswith(("repr", "same")) or broken(c)  # noqa: E731
    chk.events(evu, [ud], only=only, label="attribute names")
    for n in N((99, 255, 300, 1100), (50, 99, 100, 101, 127, 128, 255, 256, 257, 1023, 1025, 5000)):       # many fields, long fields
        for c in ("GPZZQ" + ",1" * n, "GNZZQ," + "ab c" * n, "PQTMZZ" + ",," * n):
            e, obj = pev(S(c), rng.choice([0, 1]), 0)
            ev.append(e)
            if obj is not None:
                ev.append(rep_event(obj))
    # only what the parse of the same fields gives can be compared for built messages: see filter below
    for k in range(N(2500, 25000)):
        tk = rng.choice(["GN", "GP", "P", "XX", "'", '"', "\\", ""])
        mid = rng.choice(["QQQ", "GLL", "TXT", "Q'Q", 'Q"', "Q\\", "gll", "QTMX", ""])
        pl = [rng.choice(TRICKY) if rng.random() < .5 else "".join(rng.choice(ASCII.replace(",", "").replace("*", "")) for _ in range(rng.randint(0, 5))) for _ in range(rng.randint(0, 5))]
        mode = rng.choice([0, 1, 2])
        if rng.random() < .6:
            e, obj = pev(S(",".join([tk + mid] + [x.replace("$", "") for x in pl])), mode, 0)
        else:
            e, obj = nev(tk, mid, mode, pl, 0)
        ev.append(e)
        if obj is not None:
            ev.append(rep_event(obj))

    def flt(c, e):
        # a message built from keywords holds values finer than its fields: attributes and their text are those of the fields
        return only(c, e) and not (e.get("built") and c in ("repr:attributes", "repr:str"))
    chk.events(ev, only=flt, label="string forms")
    bs = walk_behaviours(chk)
    replay_str(chk, [b for b in bs if b["st"] == "done"][:: N(3, 1)])
    return finish(chk, "model_checking")


def replay_str(chk, bs):
    """attribute order in the string form, over every shape of MCWalk"""
    for k, b in enumerate(bs):
        kind, m = guard(NMEAMessage, "GP", "ZZW", k % 3, payload=list(b["pl"]), userdefined={"ZZW": lib(b["d"])})
        chk.traces += 1
        want = "<NMEA(GPZZW" + "".join(f", {n}={int(f) if n == 'num' and f else f}" for n, f in zip(b["out"], b["pl"])) + ")>"
        if kind == "ok" and attr_names(m) == sorted(b["out"]) and str(m) != want:
            chk.violation(["str:order"], {"definition": b["d"], "fields": b["pl"], "expected": want, "got": str(m)})


# ------------------------------------------------------------------ C27
def typed(rng, depth=0, counts=(), path=""):
    """a random typed definition (names unique in it)"""
    d, cs_ = [], list(counts)
    for k in range(rng.randint(1, 4)):
        n = f"{'abcd'[depth]}{path}{k}"
        t = rng.choice(TYPES + ["IN", "ST", "DE"])
        d.append({"k": "a", "n": n, "t": t})
        if t == "IN" and depth < 2 and rng.random() < .6:
            cs_.append(n)
        if depth < 2 and rng.random() < .35:
            c = rng.choice(["fix", "att"] if cs_ and not depth else ["fix"])
            d.append({"k": "g", "n": "g" + n, "c": c, "i": rng.randint(1, 3) if c == "fix" else 0, "m": rng.choice(cs_) if c == "att" else "", "d": typed(rng, depth + 1, (), path + "pqrs"[k])})
    if depth == 0 and rng.random() < .3:
        d.append({"k": "g", "n": "gx", "c": "ind", "i": 0, "m": "", "d": [{"k": "a", "n": f"x{i}", "t": rng.choice(TYPES)} for i in range(rng.randint(1, 3))]})
    return d


def c27():
    chk, rng = Check("C27"), random.Random(core.SEED)
    bs = walk_behaviours(chk)
    replay_walk(chk, bs[:: N(2, 1)], ["parse", "new", "reader"])
    ev, uds = built_walks(rng, walk_defs(bs), N(60, 400))
    # random typed definitions: parsed, read, constructed and built
    for k in range(N(150, 1500)):
        d = typed(rng)
        dangling = rng.random() < .1        # the repeats of a group are declared by an attribute that there is not
        for el in d if dangling else []:
            if el["k"] == "g":
                el["c"], el["m"] = "att", rng.choice(["nosuch", "numr", "n_01", "time0"])
        mid = rng.choice(["ZZZ", "zz", "Z9", "QTMZZZ", "QQQ", "USERMSG", "Zzz", "UBXQ", "FECX", "TNLTNL", "SSNSN", "GGAX", "GG"])
        uds.append({mid: d, "ZZOTHER": [{"k": "a", "n": "o", "t": "ST"}]})
        udt, u = {i: lib(x) for i, x in uds[-1].items()}, len(uds)
        m = gen.Msg("USER", mid, rng.choice(["GP", "GN", "P", "XX", "Q"]), mid, rng.choice([0, 1, 2]), {}, d)
        for rep in range(3):
            nt, tx = gen.fields_for(m, rng, rng.randint(0, 3), .05)
            tx = tx if rng.random() < .7 else tx[:rng.randint(0, len(tx))]
            val = rng.choice([1, 2, 3])
            raw = S(gen.content(m, tx))
            e, _ = pev(raw, m.mode, val, u, udt)
            ev.append(e)
            ev.append(nev(m.talker, mid, m.mode, tx, val, None, u, udt)[0])
            it = [x for x in runs.file_run(raw, runs.options(quit=2, mode=m.mode, val=val), udt, al=False)["items"] if x["x"] != "end"]
            got = it[0]["r"] if len(it) == 1 and it[0]["x"] == "pair" else {"kind": it[0].get("k") if len(it) == 1 else "items"}
            if tk_ok(m.talker):
                ev.append(same(got, e["res"], "reader and parse differ on a user-defined message", msg=raw.decode("latin-1")))
        if dangling:
            continue
        nt, kw = gen.kwargs_for(m, rng, rng.randint(0, 3), rng.choice([1, .5]))
        ev.append(bev(m.talker, mid, m.mode, kw, val=3, ud=u, udt=udt)[0])

    def only(c, e):
        return not c.startswith("hemi") and not c.startswith("b:hemi") and not c.startswith("b:str") and c != "str" or broken(c)
    chk.events(ev, uds, only=only, label="user-defined")
    # a copy of every built-in definition under a new id decodes the same fields to the same attributes
    ev = []
    for m in catalog():
        if m.fixed or m.id == "ASHR" or m.key in ("QTMACK", "QTMNAK"):
            continue
        src = {"GET": pynmeagps.NMEA_PAYLOADS_GET, "GET_PROP": pynmeagps.NMEA_PAYLOADS_GET_PROP, "SET": pynmeagps.NMEA_PAYLOADS_SET, "SET_PROP": pynmeagps.NMEA_PAYLOADS_SET_PROP,
               "POLL": pynmeagps.NMEA_PAYLOADS_POLL, "POLL_PROP": pynmeagps.NMEA_PAYLOADS_POLL_PROP}[m.table]
        if m.key not in src:
            continue
        udt = {"ZZCOPY": copy.deepcopy(src[m.key])}
        for rep in range(N(2, 10)):
            nt, tx = gen.fields_for(m, rng, rng.randint(0, 3))
            if m.id.startswith("QTM") and tx[:1] in (["OK"], ["ERROR"]) and len(tx) < 3:
                continue          # an acknowledgement, not the message of this definition
            a, _ = nev(m.talker, m.id, m.mode, tx, 1)
            b, _ = nev(m.talker, "ZZCOPY", m.mode, tx, 3, None, 0, udt)
            f = lambda e: [e["res"]["kind"], e["res"].get("m", {}).get("at", []), e["res"].get("m", {}).get("pl", [])]  # noqa: E731
            ev.append(same(f(a), f(b), "copy of a built-in definition", msg=gen.content(m, tx)))
        # an entry of the same id does not change how the built-in message is decoded or built
        other = {m.id: {"hijack": "ST"}, m.key: {"hijack": "ST"}, "ZZZ": {"z": "ST"}}
        raw = S(gen.content(m, tx))
        for val in (0, 1, 3):
            ev.append(same(pev(raw, m.mode, val)[0]["res"], pev(raw, m.mode, val, 0, other)[0]["res"], "hijacked by a user-defined entry", msg=raw.decode("latin-1")))
    for m in [m for m in catalog() if m.fixed]:
        other = {m.id: {"hijack": "ST"}, m.key: {"hijack": "ST"}}
        raw = S(gen.content(m, gen.fields_for(m, rng, 1)[1]))
        ev.append(same(pev(raw, m.mode, 1)[0]["res"], pev(raw, m.mode, 1, 0, other)[0]["res"], "hijacked by a user-defined entry", msg=raw.decode("latin-1")))
    chk.events(ev, label="copies")
    return finish(chk, "model_checking")


def tk_ok(tk):
    return tk in gen.D["talkers"]
