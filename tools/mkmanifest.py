"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RE = "TLC-enumerated behaviours of {} replayed into the code, and code traces validated with TLC against {}"
TV = "TLA+ specification ({}); recorded code traces validated with TLC"
T = {
 "C01": (RE.format("MCReader.tla", "TraceReader.tla"), "every stream over a small byte alphabet up to the bound, all option combinations, plus seeded long streams from logs and generated sentences"),
 "C02": (RE.format("MCReader.tla", "TraceReader.tla"), "reader results compared with standalone parse of the same slice for all modes, validation flags and definition tables"),
 "C03": (RE.format("MCReader.tla", "TraceReader.tla"), "all error settings, handlers and resumptions over enumerated streams"),
 "C04": (RE.format("MCReader.tla/MCReaderLive", "TraceReader.tla"), "every truncation point of enumerated and generated streams; end of data read repeatedly; liveness of the reader model"),
 "C05": (RE.format("MCReader.tla", "TraceReader.tla"), "every byte after '$' with nmeaonly on and off, plus enumerated streams"),
 "C06": (TV.format("Message.tla, Text.tla"), "every id, single-byte changes at every position, checksum texts of every kind"),
 "C07": (RE.format("MCSocket.tla", "TraceSocket.tla"), "all segmentations of enumerated wires, all small buffer sizes, random read/readline scripts"),
 "C08": (RE.format("MCSocket.tla", "TraceSocket.tla"), "all segmentations of chunk-encoded streams within the bound"),
 "C09": (RE.format("MCSocket.tla", "TraceSocket.tla"), "codecs x segmentations x damaged chunks; the inflate function itself (zlib) is an uninterpreted input of the model, taken from an independent use of zlib"),
 "C10": (RE.format("MCSocket.tla", "TraceSocket.tla"), "a failure (timeout, error, close) injected at every receive position"),
 "C11": (TV.format("Message.tla, Reader.tla"), "mutation-based and random byte input; accept/reject/None required by the specification for each"),
 "C12": (TV.format("Message.tla") , "every definition and unknown ids, with and without checksum"),
 "C13": (TV.format("Build.tla, Message.tla"), "every definition x mode, random subsets of attributes, values at field boundaries"),
 "C14": (RE.format("MCWalk.tla", "Judge.tla"), "all small definition shapes x field counts, and every built-in definition with groups at every field count"),
 "C15": (RE.format("MCSelect.tla", "Judge.tla"), "every id x mode x user-table combination"),
 "C16": (TV.format("Message.tla variants"), "every variant id x mode x every field count, ack/nak shapes, builds from keyword subsets"),
 "C17": (TV.format("Fields.tla"), "every field of every definition with boundary and malformed texts"),
 "C18": (TV.format("Fields.tla, Build.tla"), "all messages with lat/NS or lon/EW, all letters and signs"),
 "C19": (TV.format("Helpers.tla, Dec.tla exact decimals"), "boundary-dense values; exact decimal comparison"),
 "C20": (RE.format("MCCalendar.tla", "Judge.tla"), "every calendar date 1969-2068 in every format; times at boundaries"),
 "C21": (RE.format("MCLifecycle.tla", "Judge.tla"), "every sequence of mutations up to the bound on every kind of message"),
 "C22": (RE.format("MCTime.tla", "Judge.tla"), "instants around every leap second, week wrap and rollover, plus random instants; clock patched for rollover where possible"),
 "C23": (RE.format("MCTime.tla", "Judge.tla"), "every day's offset (thorough) or every 29th day (quick) and both sides of every leap midnight"),
 "C24": (TV.format("Message.tla mode clause"), "valid and invalid modes x all other arguments"),
 "C25": (TV.format("Repr.tla, Message.tla"), "every definition, hostile texts; eval(repr) compared"),
 "C26": (RE.format("MCInterleave.tla", "Judge.tla"), "all interleavings of small reader schedules, history permutations, threads"),
 "C27": (RE.format("MCWalk.tla", "Judge.tla"), "enumerated and random user-defined tables through all three entry points"),
 "C28": (TV.format("Helpers.tla, Dec.tla exact decimals"), "boundary-dense values; exact decimal comparison"),
 "C30": (TV.format("Geo.tla, Fix.tla exact fixed-point trigonometry"), "random, polar, antipodal, date-line and nearby pairs; several radii, ellipsoids and heights; tolerance a few units of double rounding"),
 "C31": (TV.format("TraceReader.tla, TraceSocket.tla"), "stream position or bytes waiting after every call; calls of several readers on one stream with reads of the caller between them; wrapper buffers compared byte for byte"),
 "C32": (TV.format("Fields.tla, Dec.tla"), "every type with boundary, malformed and random texts and values; nominal values; names that are no types"),
 "C33": (TV.format("Message.tla"), "every definition and mutated sentences, ASCII and not, in both forms under all validation flags"),
 "C34": (TV.format("Message.tla, Build.tla, TraceReader.tla with the documented defaults"), "every public function and constructor called with defaults omitted, by position and by keyword"),
 "C35": (TV.format("Decodes.tla"), "every code of every decode table and the codes around them, through the messages that carry them; status words of every single bit and random ones; every protocol constant"),
 "C36": (RE.format("MCLifecycle.tla with copies", "Judge.tla"), "every history of three operations with a copy among them on messages of six origins; every definition copied, deep-copied, pickled and carried to another process"),
 "C29": (TV.format("Helpers.tla, Text.tla"), "every id, all field splits, malformed sentences, hex widths"),
}
NOTE = ("Held on everything explored: {}. Not a proof: bounded enumeration plus seeded sampling. Trusts TLC, the projection of Python values "
        "(harness/proj.py) and, as the statement of which fields a message has, the definition snapshot spec/data/defs.json.")
NA = []
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3"
json.dump({"version": 1, "setup_cmd": f"{PY} tools/setup.py",
           "hooks": {"guard": "none", "enable": "no hooks: only the public interface is driven and observed", "source_commits": []},
           "checks": [{"property": k, "quick_cmd": f"{PY} check.py {k} quick", "thorough_cmd": f"{PY} check.py {k} thorough", "technique": t, "level": "model_checking", "level_note": NOTE.format(n)} for k, (t, n) in T.items()],
           "not_applicable": [{"property": k, "reason": r} for k, r in NA],
           "notes": "TLA+ with TLC; see DESIGN.md. known_findings.txt lists the defects found and fixed."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
