"""Input generation from the specification's definition tables (never from the code's)."""
import json, random
from core import DEFS

D = json.load(open(DEFS, encoding="utf-8"))
TAB = D["tables"]
for _t in TAB.values():
    _t.pop("", None)
PREFIX = D["prefix"]
MODES = {"GET": 0, "GET_PROP": 0, "SET": 1, "SET_PROP": 1, "POLL": 2, "POLL_PROP": 2}
VARIANT_SUFFIX = ("_CURRBAUD", "_BAUD", "_CURR", "_NOVER", "_INTFNOVER", "_INTF", "_DIS", "_LOW", "_POLY", "_ALT")
VARIANT_BASE = ("QTMCFGUART", "QTMCFGMSGRATE", "QTMCFGPPS", "QTMCFGSAT", "QTMCFGGEOFENCE", "QTMSN")


def xor(s):
    c = 0
    for b in s.encode("utf-8"):
        c ^= b
    return f"{c:02X}"


def sentence(content, ck=None, end="\r\n"):
    return f"${content}*{xor(content) if ck is None else ck}{end}".encode("utf-8")


class Msg:
    """One defined message: how to address it, and its definition."""

    def __init__(self, table, key, talker, mid, mode, fixed, d):
        self.table, self.key, self.talker, self.id, self.mode, self.fixed, self.d = table, key, talker, mid, mode, fixed, d

    @property
    def prop(self):
        return self.talker == "P"

    def __repr__(self):
        return f"{self.table}:{self.key}"


def catalog():
    out = []
    for tn, tab in TAB.items():
        for key, d in tab.items():
            if key == "FOO":
                continue
            mode = MODES[tn]
            prop = tn.endswith("_PROP") or key not in D["ids"]
            talker = "P" if prop else "GN"
            mid, fixed = key, {}
            for p in PREFIX:
                if prop and key.startswith(p):
                    if key == "ASHR":
                        break
                    mid, fixed = p, {"msgId": key[len(p):]}
                    break
            if key.startswith("STMDRSENMSG_"):
                mid, fixed = "STMDRSENMSG", {"msgtype": key.split("_")[1]}
            for b in VARIANT_BASE:
                if key.startswith(b + "_"):
                    mid = b
            if key in ("QTMACK", "QTMNAK"):
                mid = "QTMCFGODO"
            out.append(Msg(tn, key, talker, mid, mode, fixed, d))
    return out


def expand(d, groups, rng, ix=()):
    """list of (name, type) for a definition with groups(kind,...)->repeats"""
    out = []
    for el in d:
        if el["k"] == "a":
            out.append((el["n"] + "".join(f"_{i:02d}" for i in ix), el["t"]))
        else:
            for i in range(groups(el)):
                out += expand(el["d"], groups, rng, ix + (i + 1,))
    return out


PUNCT = "[](){}<>|!#%&=?@^`~'\"\\;:+-_/. aZ09\t"
ODD = [" x", "x ", "a  b", "\u00e9", "\u20ac\u20ac", "0", "007", "1.50", "-1", "None", "True", "{x}", "%s", "\\n", "[1", "2]", "[a]", "\t", " ", "\x00", "x" * 90, "\u00a0", "\u3042"]
ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"


def good_text(t, rng):
    """well-formed field text of a type"""
    if t in ("CH", "ST"):
        if rng.random() < .08:
            return "".join(rng.choice(PUNCT) for _ in range(rng.randint(1, 4))) if rng.random() < .6 else rng.choice(ODD)
        return rng.choice(["", rng.choice(ALNUM), "".join(rng.choice(ALNUM + " .-_/:;+") for _ in range(rng.randint(1, 8)))])
    if t == "QS":
        if rng.random() < .04:
            return rng.choice(["", "ok", "Ok", "error", "E", "1", " OK", "OK ", "[OK]"])
        return rng.choice(["OK", "R", "W", "ERROR", "OK"])
    if t == "HX":
        h = "".join(rng.choice("0123456789ABCDEF") for _ in range(rng.randint(1, 8)))
        return rng.choice([h, h, h, h.lower(), "0x" + h, "000" + h])
    if t == "LAD":
        return rng.choice("NSNSNS") if rng.random() < .95 else rng.choice(["", "", "s", "n", "X", "W", "SS", " S", "S ", "0", "-"])
    if t == "LND":
        return rng.choice("EWEWEW") if rng.random() < .95 else rng.choice(["", "", "w", "e", "X", "S", "WE", " W", "W ", "0", "-"])
    if t == "DE":
        r = rng.random()
        if r < .1:
            return ""
        if r < .3:
            return str(rng.randint(-999, 999))
        return f"{rng.choice(['', '-', '', '', '+'])}{rng.choice([0, rng.randint(0, 99999)])}.{rng.randint(0, 10**rng.randint(1, 6) - 1):0{rng.randint(1, 6)}d}"
    if t == "IN":
        r = rng.random()
        if r < .1:
            return ""
        return rng.choice([str(rng.randint(0, 12)), str(rng.randint(-99999, 10**7)), f"{rng.randint(0, 99):03d}"])
    if t in ("LA", "LN"):
        if rng.random() < .08:
            return ""
        w = 2 if t == "LA" else 3
        mx = 89 if t == "LA" else 179
        dp = rng.choice([1, 2, 3, 4, 5, 6, 7])
        return f"{rng.choice([0, rng.randint(0, mx), mx]):0{w}d}{rng.choice([0, 59, rng.randint(0, 59)]):02d}.{rng.choice([0, 10**dp - 1, rng.randint(0, 10**dp - 1)]):0{dp}d}"
    if t == "TM":
        if rng.random() < .08:
            return ""
        s = f"{rng.choice([0, 23, rng.randint(0, 23)]):02d}{rng.choice([0, 59, rng.randint(0, 59)]):02d}{rng.choice([0, 59, rng.randint(0, 59)]):02d}"
        dp = rng.choice([0, 1, 2, 2, 3, 6])
        return s + (f".{rng.randint(0, 10**dp - 1):0{dp}d}" if dp else "")
    if t in ("DT", "DTL", "DM"):
        if rng.random() < .08:
            return ""
        y = rng.choice([1969, 1999, 2000, 2024, 2068, rng.randint(1969, 2068)])
        m = rng.randint(1, 12)
        mx = [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
        dd = rng.choice([1, mx, rng.randint(1, mx)])
        return {"DT": f"{dd:02d}{m:02d}{y % 100:02d}", "DM": f"{m:02d}{dd:02d}{y % 100:02d}", "DTL": f"{dd:02d}{m:02d}{y:04d}"}[t]
    return ""


BADS = {
    "DE": ["x", "1.2.3", "--1", "1e", "e5", ".", "-", "1,".replace(",", ";"), "0x1F", "1-2", " ", "  ", "_", "\t"],
    "IN": ["x", "1.0", "1e3", "-", "+", "--2", "0x1", "12a", " ", "   ", "_", "\t"],
    "LA": ["5206", "206.1", "52O6.1", "52q06.1", ".", "abcd.ef", "5206.1.2", "5299.0", " "],
    "LN": ["00006", "06.1", "0q006.1", "x.y", " "],
    "TM": ["250000", "126000.0", "123460", "12:34:56", "123456.1234567", "x", "12345x.00", "999999.99", "1048", "10481", "104", "1", "1048123", "10481234", "24", " ", "  "],
    "DT": ["320124", "011324", "300224", "290223", "x", "0101-24", " "],
    "DTL": ["32012024", "01132024", "29022023", "x", "01010000", " "],
    "DM": ["130124", "023024", "x", " "],
}


def any_text(t, rng, pbad=.0):
    if t in BADS and rng.random() < pbad:
        return rng.choice(BADS[t])
    return good_text(t, rng)


def plan(el, rng, reps, counts):
    """repeat count of a group in a generated payload; reps: wished number"""
    if el["c"] == "fix":
        return el["i"]
    return reps


def fields_for(m, rng, reps=2, pbad=0.0):
    """(names/types, texts) of a full payload of message m"""
    counted = {}

    def scan(d):
        for el in d:
            if el["k"] == "g":
                if el["c"] == "att":
                    counted[el["m"]] = reps
                scan(el["d"])
    scan(m.d)
    nt = expand(m.d, lambda el: el["i"] if el["c"] == "fix" else reps, rng)
    tx = []
    for n, t in nt:
        if n in m.fixed:
            tx.append(m.fixed[n])
        elif n in counted:
            tx.append(str(counted[n]))
        else:
            tx.append(any_text(t, rng, pbad))
    if m.key == "ASHR" and len(tx) > 0:       # pitch and roll: first field is a time
        tx[0] = f"{rng.randint(0, 23):02d}{rng.randint(0, 59):02d}{rng.randint(0, 59):02d}.{rng.randint(0, 99):02d}"
    if m.key == "QTMACK":
        tx = ["OK"]
    elif m.key == "QTMNAK":
        tx = ["ERROR"] + tx[1:2]
    elif m.key == "QTMSN_ALT":
        tx[0] = str(rng.randint(0, 99))
    elif m.key == "QTMSN" and m.mode == 0 and tx and tx[0].isnumeric():
        tx[0] = "OK"
    return nt, tx


def content(m, tx):
    return ",".join([m.talker + m.id] + tx)


def parse_event(raw, mode, val, ud, res):
    return {"op": "parse", "msg": list(raw), "mode": mode, "val": val, "ud": ud, "res": res}


# ------------------------------------------------------------------ building
from datetime import date, datetime, time, timedelta, timezone  # noqa: E402


def value(t, rng, name="", mode=0):
    """a keyword value of the right type"""
    if t in ("CH", "ST"):
        if rng.random() < .15:
            return rng.choice([" x", "x ", "a  b", "é", "0", "007", "1.50", "-1", "None", "True", "{x}", "%s", "\\n", "'", '"', "=", ";:@#/+&", "€" * 3, "x" * 90])
        return "".join(rng.choice(ALNUM + " .-_") for _ in range(rng.randint(1, 6)))
    if t == "QS":
        return {0: "OK", 1: "W", 2: "R"}[mode]
    if t == "HX":
        h = "".join(rng.choice("0123456789ABCDEF") for _ in range(rng.randint(1, 6)))
        return rng.choice([h, h, h.lower(), "0" + h.lower(), "0x" + h])
    if t == "LAD":
        return rng.choice("NS")
    if t == "LND":
        return rng.choice("EW")
    if t == "DE":
        if rng.random() < .06:
            return rng.choice([1e-7, -1e-7, 1e-20, 1e16, 1.5e30, 123456789.125, 10 ** 12, 0.1 + 0.2, -0.0])
        return rng.choice([round(rng.uniform(-1000, 1000), rng.randint(0, 6)), round(rng.uniform(-1, 1), 4), float(rng.randint(-99, 99)), 0.0, rng.randint(-9, 9)])
    if t == "IN":
        return rng.choice([0, 1, -1, rng.randint(-10**6, 10**6), rng.randint(0, 10**9)])
    if t in ("LA", "LN") and rng.random() < .12:        # next to the equator or the meridian
        return rng.choice([-1, 1]) * 10 ** rng.uniform(-10, -.5)
    if t == "LA":
        return rng.choice([round(rng.uniform(-90, 90), 7), round(rng.uniform(-90, 90), 9), float(rng.randint(-89, 89)), 0.0,
                           rng.choice([-1, 1]) * (rng.randint(1, 89) - rng.choice([1e-8, 4e-9, 8e-8, 1e-7, 5e-8, 8.4e-8]))])
    if t == "LN":
        return rng.choice([round(rng.uniform(-180, 180), 7), round(rng.uniform(-180, 180), 9), float(rng.randint(-179, 179)), 0.0,
                           rng.choice([-1, 1]) * (rng.randint(1, 179) - rng.choice([1e-8, 4e-9, 8e-8, 1e-7, 5e-8, 8.4e-8]))])
    if t == "TM":
        return time(rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, rng.randint(0, 99) * 10000, rng.randint(0, 999999)]))
    if t == "DTL" and rng.random() < .3:    # the only form that carries the century
        return date.fromordinal(rng.randint(1, rng.choice([366 * 1000, date.max.toordinal()])))
    if t in ("DT", "DTL", "DM"):
        return date(1969, 1, 1) + timedelta(days=rng.randint(0, 36523))
    return ""


def kwargs_for(m, rng, reps, p):
    """(names/types, keyword dict): each attribute given with probability p"""
    counted = {}

    def scan(d):
        for el in d:
            if el["k"] == "g":
                if el["c"] == "att":
                    counted[el["m"]] = reps
                scan(el["d"])
    scan(m.d)
    nt = expand(m.d, lambda el: el["i"] if el["c"] == "fix" else reps, rng)
    kw = {}
    ind = any(el["k"] == "g" and el["c"] == "ind" for el in m.d)
    for n, t in nt:
        if n in m.fixed:
            kw[n] = m.fixed[n]
        elif n in counted:
            kw[n] = counted[n]
        elif rng.random() < p or (ind and reps and n.endswith(f"_{reps:02d}") and rng.random() < .7):
            kw[n] = value(t, rng, n, m.mode)
    return nt, kw


def variant_kw(m, kw, nt, rng):
    """complete keyword set so that the variant m is the one selected"""
    names = [n for n, _ in nt]
    ty = dict(nt)
    need = {"QTMCFGUART": ("portid", "baudrate", "databit"), "QTMCFGMSGRATE": ("porttype", "msgver"), "QTMCFGSAT": ("maskhigh",),
            "QTMCFGGEOFENCE": ("lon1", "geofencemode"), "QTMCFGPPS": ("enable",)}.get(m.id, ())
    for n in need:
        if n in names:
            kw[n] = value(ty[n], rng, n, m.mode)
            if n in ("geofencemode", "enable"):
                kw[n] = 0 if m.key.endswith("_DIS") else rng.choice([1, 2])
    return kw


def now6():
    t = datetime.now(timezone.utc)
    return [t.year, t.month, t.day, t.hour, t.minute, t.second]


def build_event(NMEAMessage, NMEAReader, proj, talker, mid, mode, kw, val=1, hp=False, ud=0, udt=None, bval=3, rt=True):
    t0 = now6()
    res, obj = proj.result(NMEAMessage, talker, mid, mode, hpnmeamode=hp, validate=val, userdefined=udt, **kw)
    t1 = now6()
    back = {"kind": "skip"}
    if obj is not None and res["kind"] == "msg" and rt:
        back, _ = proj.result(NMEAReader.parse, obj.serialize(), msgmode=mode, validate=bval, userdefined=udt)
    else:
        rt = False
    return {"op": "build", "talker": proj.text(talker), "id": proj.text(mid), "mode": mode, "val": val, "hp": hp, "ud": ud, "udt": 0,
            "kw": [{"n": n, "v": proj.val(v), "x": proj.text(str(v))} for n, v in kw.items()], "t0": t0, "t1": t1, "res": res, "rt": rt, "back": back, "bval": bval}, obj
