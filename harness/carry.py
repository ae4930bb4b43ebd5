"""Receives pickled messages in a process of its own and tells what they are there (C36)."""
import json, pickle, sys

import core, proj
from core import guard

src, out = sys.argv[1:3]
seen = []
for data in pickle.load(open(src, "rb")):
    kind, m = guard(pickle.loads, data)
    if kind != "ok":
        seen.append([kind, None])
        continue
    kind, v = guard(lambda: [proj.msg(m), repr(m), guard(setattr, m, "talker2", 1)[0], guard(delattr, m, "nosuch")[0]])
    seen.append([kind, v if kind == "ok" else None])
json.dump(seen, open(out, "w"))
