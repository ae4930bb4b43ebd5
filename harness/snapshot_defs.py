"""One-off: write spec/data/defs.json, the definition tables the specification is stated over,
from the pinned tree.  Not run by any check (the committed file is the reference)."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, "/repo/src")
import pynmeagps as p

def conv(d):
    out = []
    for n, t in d.items():
        if isinstance(t, tuple):
            c, sub = t
            kind = "fix" if isinstance(c, int) else "ind" if c == "None" else "att"
            out.append({"k": "g", "n": n, "c": kind, "i": c if kind == "fix" else 0,
                        "m": c if kind == "att" else "", "d": conv(sub)})
        else:
            out.append({"k": "a", "n": n, "t": t})
    return out

T = {}
for n, mode, src in (("GET", 0, "STND"), ("GET_PROP", 0, "PROP"), ("SET", 1, "STND"), ("SET_PROP", 1, "PROP"),
                     ("POLL", 2, "STND"), ("POLL_PROP", 2, "PROP")):
    T[n] = {k: conv(d) for k, d in getattr(p, "NMEA_PAYLOADS_" + n).items()}
    if not T[n]:
        T[n] = {"": []}          # JSON objects must not be empty for TLC
json.dump({"tables": T, "talkers": list(p.NMEA_TALKERS), "ids": p.NMEA_MSGIDS, "idsprop": p.NMEA_MSGIDS_PROP,
           "prefix": list(p.NMEA_PREFIX_PROP)},
          open(os.path.join(os.path.dirname(__file__), "../spec/data/defs.json"), "w"), indent=0)
