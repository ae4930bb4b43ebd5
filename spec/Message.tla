------------------------------ MODULE Message -------------------------------
(***************************************************************************)
(* Sentences, definition selection and the attribute walk.                 *)
(*                                                                         *)
(* A definition is a sequence of entries                                   *)
(*   [k |-> "a", n |-> name, t |-> type]                    attribute      *)
(*   [k |-> "g", n, c, i, m, d |-> definition]              group, repeated *)
(*     c = "fix": i times;  c = "att": as declared by attribute m;         *)
(*     c = "ind": as often as the fields present allow.                    *)
(***************************************************************************)
EXTENDS Fields, Json, IOUtils

DATA     == JsonDeserialize(IOEnv.NMEA_DEFS)
Tables   == DATA.tables
Talkers  == ToSet(DATA.talkers)
StdIds   == DOMAIN DATA.ids
PropIds  == DOMAIN DATA.idsprop
PrefixIds == ToSet(DATA.prefix)
GET == 0   SET == 1   POLL == 2
Modes == {GET, SET, POLL}
VALCKSUM == 1   VALMSGID == 2
ChecksCk(v)  == (v % 2) = 1
ChecksId(v)  == ((v \div 2) % 2) = 1
\* bytes that may follow '$' in a header: first letters of talker ids
TalkerStart == {T(x)[1] : x \in Talkers}

-----------------------------------------------------------------------------
(* Splitting a sentence. *)
ChecksumOf(t) == Hex2(XorAll(Utf8Encode(t)))

Parts(bytes) ==
  LET u == Utf8Decode(bytes) IN
  IF ~u.ok THEN [ok |-> FALSE]
  ELSE LET s == Strip(u.out, {DOLLAR, CR, LF})
           p == Pos(s, STAR)
       IN  IF p = 0 THEN [ok |-> FALSE]
           ELSE LET c == SubSeq(s, 1, p - 1)
                    f == Split(c, COMMA)
                    h == f[1]
                    n == IF Len(h) >= 1 /\ h[1] = 80 THEN 1 ELSE Min2(2, Len(h))
                IN  [ok |-> TRUE, content |-> c, talker |-> SubSeq(h, 1, n),
                     id |-> SubSeq(h, n + 1, Len(h)), payload |-> Tail(f),
                     cksum |-> SubSeq(s, p + 1, Len(s))]

-----------------------------------------------------------------------------
(* Which definition applies.  cx describes what selection may look at:      *)
(*   id (TLA+ string), mode, ud (user table), py (TRUE: fields given),      *)
(*   pl (field texts), kw (set of keyword names), kv (keyword texts).       *)
Table(src, mode) ==
  CASE src = "PROP" -> (CASE mode = POLL -> Tables.POLL_PROP [] mode = SET -> Tables.SET_PROP [] OTHER -> Tables.GET_PROP)
    [] OTHER        -> (CASE mode = POLL -> Tables.POLL [] mode = SET -> Tables.SET [] OTHER -> Tables.GET)

Source(id, ud) ==
  CASE id \in StdIds -> "STND"
    [] id \in PropIds \/ id \in PrefixIds -> "PROP"
    [] id \in DOMAIN ud -> "USER"
    [] OTHER -> "UNKN"

NoDef == [st |-> "none"]
Def(d) == [st |-> "def", d |-> d]
UnspecDef == [st |-> "any"]           \* selection outside the specified domain
LookUp(tab, key) == IF key \in DOMAIN tab THEN Def(tab[key]) ELSE NoDef

QtmAck(cx, key) ==
  IF cx.mode # GET THEN key
  ELSE IF Len(cx.pl) = 1 /\ cx.pl[1] = T("OK") THEN "QTMACK"
  ELSE IF Len(cx.pl) = 2 /\ cx.pl[1] = T("ERROR") THEN "QTMNAK"
  ELSE key

Has(cx, n) == n \in cx.kw
\* variant of key, by number of fields (parsing) or by keywords given (building)
Variant(cx, key) ==
  LET L  == Len(cx.pl)
      PL(n) == cx.py /\ L = n
      KW(b) == ~cx.py /\ b
  IN
  CASE key = "QTMCFGUART" ->
         LET pt == Has(cx, "portid")  bd == Has(cx, "baudrate")  db == Has(cx, "databit") IN
         IF cx.mode = SET THEN
           IF PL(2) \/ KW(~pt /\ bd /\ ~db) THEN key \o "_CURRBAUD"
           ELSE IF PL(3) \/ KW(pt /\ bd /\ ~db) THEN key \o "_BAUD"
           ELSE IF PL(6) \/ KW(~pt /\ bd /\ db) THEN key \o "_CURR" ELSE key
         ELSE IF cx.mode = POLL /\ (PL(1) \/ KW(~pt)) THEN key \o "_CURR" ELSE key
    [] key = "QTMCFGMSGRATE" ->
         LET pt == Has(cx, "porttype")  mv == Has(cx, "msgver")
             o  == IF cx.mode = POLL THEN 1 ELSE 0
         IN  IF PL(3 - o) \/ KW(~pt /\ ~mv) THEN key \o "_NOVER"
             ELSE IF PL(5 - o) \/ KW(pt /\ ~mv) THEN key \o "_INTFNOVER"
             ELSE IF PL(6 - o) \/ KW(pt /\ mv) THEN key \o "_INTF" ELSE key
    [] key = "QTMCFGPPS" ->
         IF cx.mode = SET /\ (PL(3) \/ KW(Has(cx, "enable") /\ cx.zero["enable"])) THEN key \o "_DIS" ELSE key
    [] key = "QTMCFGSAT" ->
         IF cx.mode \in {SET, GET} /\ (PL(4) \/ KW(~Has(cx, "maskhigh"))) THEN key \o "_LOW" ELSE key
    [] key = "QTMCFGGEOFENCE" ->
         IF cx.mode \in {SET, GET} /\ (PL(13) \/ KW(Has(cx, "lon1"))) THEN key \o "_POLY"
         ELSE IF cx.mode \in {SET, GET} /\ (PL(3) \/ KW(Has(cx, "geofencemode") /\ cx.zero["geofencemode"])) THEN key \o "_DIS"
         ELSE key
    [] key = "QTMSN" ->
         IF cx.mode = GET /\ cx.py /\ L > 0 /\ cx.pl[1] # <<>> /\ AllDigits(cx.pl[1]) THEN key \o "_ALT" ELSE key
    [] OTHER -> key

IsQtm(key) == Len(key) >= 3 /\ SubSeq(key, 1, 3) = "QTM"

SelectProp(cx, key) ==
  IF key = "STMDRSENMSG" THEN
    IF cx.py /\ cx.pl = <<>> THEN NoDef
    ELSE LookUp(Table("PROP", cx.mode),
                key \o "_" \o (IF cx.py THEN ToS(cx.pl[1]) ELSE IF Has(cx, "msgtype") THEN ToS(cx.kv["msgtype"]) ELSE ""))
  ELSE IF key = "QTMSN" /\ cx.mode = GET /\ cx.py /\ cx.pl = <<>> THEN NoDef
  ELSE IF key = "QTMSN" /\ cx.mode = GET /\ cx.py /\ ~IsAscii(cx.pl[1]) THEN UnspecDef
  ELSE LET v == Variant(cx, key)
           k == IF IsQtm(v) THEN QtmAck(cx, v) ELSE v
           r == LookUp(Table("PROP", cx.mode), k)
       IN  IF cx.mode = POLL /\ r.st = "none" THEN LookUp(Tables.POLL, k) ELSE r

(* ids are texts; id keys outside ASCII are unspecified where case folding matters *)
Select(cx) ==
  LET id  == ToS(cx.id)
      src == Source(id, cx.ud)
  IN
  IF src = "USER" THEN Def(cx.ud[id])
  ELSE IF id \in PrefixIds THEN
    IF cx.py THEN
      IF cx.pl = <<>> THEN NoDef
      ELSE LET f == cx.pl[1] IN
        IF ~IsAscii(f) THEN UnspecDef
        ELSE IF id = "ASHR" THEN
          IF Len(f) < 2 THEN NoDef
          ELSE SelectProp(cx, IF IsDigit(f[2]) THEN "ASHR" ELSE "ASHR" \o ToS(Upper(f)))
        ELSE SelectProp(cx, id \o ToS(Upper(f)))
    ELSE IF Has(cx, "msgId") THEN SelectProp(cx, id \o ToS(Upper(cx.kv["msgId"])))
    ELSE [st |-> "nokey"]
  ELSE IF ~IsAscii(cx.id) THEN UnspecDef
  ELSE IF src = "PROP" THEN SelectProp(cx, ToS(Upper(cx.id)))
  ELSE LookUp(Table("STND", cx.mode), ToS(Upper(cx.id)))

-----------------------------------------------------------------------------
(* The walk over field texts pl: result out is the sequence of attributes   *)
(* [n |-> full name, t |-> type, v |-> field text], in order of assignment. *)
W0 == [p |-> 1, out |-> <<>>, err |-> FALSE, maybe |-> FALSE]

LastNamed(out, n) == LET I == {i \in DOMAIN out : out[i].n = n}
                     IN  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i >= j

\* number of repeats declared by a decoded attribute: [st, c]
DeclCount(out, m, pl) ==
  LET i == LastNamed(out, m) IN
  IF i = 0 THEN [st |-> "err"]
  ELSE IF out[i].t = "IN" THEN
    LET d == Decoded("IN", out[i].v) IN
    CASE d.st = "maybe" -> [st |-> "maybe"]
      [] d.st # "ok" \/ d.k # "i" -> [st |-> "err"]
      [] d.n = 1 -> [st |-> "ok", c |-> 0]
      [] Len(d.g) + d.e > 4 -> [st |-> "ok", c |-> Len(pl) + 1]   \* more than any payload
      [] OTHER -> [st |-> "ok", c |-> Min2(ToNat([k \in 1..Len(d.g) |-> d.g[k] + 48] \o [k \in 1..d.e |-> 48]), Len(pl) + 1)]
  ELSE [st |-> "err"]                       \* text, decimal, ...: not a count

RECURSIVE WalkDef(_, _, _, _), WalkRep(_, _, _, _, _, _)
WalkEl(el, pl, ix, st) ==
  IF st.err THEN st
  ELSE IF el.k = "a" THEN
    IF st.p > Len(pl) THEN st
    ELSE LET d == Decoded(el.t, pl[st.p]) IN
         [p |-> st.p + 1, out |-> Append(st.out, [n |-> el.n \o Suffix(ix), t |-> el.t, v |-> pl[st.p]]),
          err |-> d.st = "err", maybe |-> st.maybe \/ d.st = "maybe"]
  ELSE LET c == CASE el.c = "fix" -> [st |-> "ok", c |-> el.i]
                  [] st.p > Len(pl) -> [st |-> "ok", c |-> 0]         \* nothing left to group
                  [] el.c = "ind" -> [st |-> "ok", c |-> (Len(pl) - (st.p - 1)) \div Len(el.d)]
                  [] OTHER        -> DeclCount(st.out, el.m, pl)
       IN  CASE c.st = "err"   -> [st EXCEPT !.err = TRUE]
             [] c.st = "maybe" -> [st EXCEPT !.err = TRUE, !.maybe = TRUE]
             [] OTHER          -> WalkRep(el, pl, ix, st, 1, c.c)
WalkRep(el, pl, ix, st, i, c) ==
  IF i > c \/ st.p > Len(pl) \/ st.err THEN st
  ELSE WalkRep(el, pl, ix, WalkDef(el.d, pl, Append(ix, i), st), i + 1, c)
WalkDef(d, pl, ix, st) == FoldLeft(LAMBDA s, el : WalkEl(el, pl, ix, s), st, d)
\* err with maybe: the outcome (error or not) is outside the specified domain
Walk(d, pl) == WalkDef(d, pl, <<>>, W0)

FieldName(i) == "field_" \o (IF i < 10 THEN "0" ELSE "") \o ToString(i)
NominalAttrs(pl) == [i \in DOMAIN pl |-> [n |-> FieldName(i), t |-> "ST", v |-> pl[i]]]

(* Hemisphere rule: forced sign of attribute i of out. *)
DirType == [lat |-> "LAD", lon |-> "LND"]
NegDir  == [lat |-> <<83>>, lon |-> <<87>>]          \* S, W
ForcedSign(out, i) ==
  LET n == out[i].n IN
  IF n \notin {"lat", "lon"} THEN 0
  ELSE LET J == {j \in DOMAIN out : j > i /\ out[j].t = DirType[n]}
       IN  IF J = {} THEN 0
           ELSE IF out[CHOOSE j \in J : \A k \in J : j >= k].v = NegDir[n] THEN -1 ELSE 1

(* Identity: talker, id and, for prefix families, the msgId attribute. *)
IdentityOf(talker, id, out) ==
  LET i == LastNamed(out, "msgId") IN
  IF ToS(talker) = "P" /\ ToS(id) \in PrefixIds /\ i # 0 THEN talker \o id \o out[i].v ELSE talker \o id

(* PSSNSNC: group brackets are not part of the attribute values. *)
StripBrackets(talker, id, pl) ==
  IF ToS(talker) = "P" /\ ToS(id) = "SSN" /\ Len(pl) > 0 /\ pl[1] = T("SNC")
  THEN TLCEval([i \in DOMAIN pl |-> IF i = 1 THEN pl[i] ELSE Without(pl[i], {91, 93})])
  ELSE pl

-----------------------------------------------------------------------------
(* Outcome of interpreting given fields:                                    *)
(*  kinds: the outcomes allowed, among "msg", "MessageError", "TypeError";  *)
(*  out: attributes when a message; unspec: attributes unspecified.         *)
Interpret(talker, id, mode, val, ud, pl0) ==
  LET src == Source(ToS(id), ud)
      cx  == [id |-> id, mode |-> mode, ud |-> ud, py |-> TRUE, pl |-> pl0, kw |-> {}, kv |-> <<>>, zero |-> <<>>]
      pl  == StripBrackets(talker, id, pl0)
  IN
  IF ChecksId(val) /\ (ToS(talker) \notin Talkers \/ src = "UNKN")
  THEN [kinds |-> {"MessageError"}, out |-> <<>>, unspec |-> FALSE, src |-> src, def |-> FALSE]
  ELSE LET s == Select(cx) IN
    CASE s.st = "any" -> [kinds |-> {"msg", "MessageError", "TypeError"}, out |-> <<>>, unspec |-> TRUE, src |-> src, def |-> FALSE]
      [] s.st = "none" ->
           IF ChecksId(val) THEN [kinds |-> {"MessageError"}, out |-> <<>>, unspec |-> FALSE, src |-> src, def |-> FALSE]
           ELSE [kinds |-> {"msg"}, out |-> NominalAttrs(pl0), unspec |-> FALSE, src |-> src, def |-> FALSE]
      [] OTHER ->
           LET w == Walk(s.d, pl) IN
           [kinds  |-> IF w.maybe THEN {"msg", "TypeError"} ELSE IF w.err THEN {"TypeError"} ELSE {"msg"},
            out    |-> w.out, unspec |-> w.maybe, src |-> src, def |-> TRUE]

(* parse(): kinds among "msg", "none", "NMEAParseError", "NMEATypeError". *)
CkWeird(t) == ~IsAscii(t)
ParseOutcome(bytes, mode, val, ud) ==
  IF mode \notin Modes THEN [kinds |-> {"NMEAParseError"}, why |-> "mode"]
  ELSE LET p == Parts(bytes)
           rej == IF ChecksId(val) THEN {"NMEAParseError"} ELSE {"none"}
       IN
    IF ~p.ok THEN [kinds |-> rej, why |-> "malformed"]
    ELSE LET ckok == Upper(p.cksum) = ChecksumOf(p.content)
             i    == Interpret(p.talker, p.id, mode, val, ud, p.payload)
             \* MessageError becomes a parse error or None
             ks   == UNION {CASE k = "msg" -> {"msg"} [] k = "TypeError" -> {"NMEATypeError"} [] OTHER -> rej : k \in i.kinds}
         IN  CASE ChecksCk(val) /\ CkWeird(p.cksum) ->
                    [kinds |-> ks \cup {"NMEAParseError"}, why |-> "weird", p |-> p, i |-> i]
               [] ChecksCk(val) /\ ~ckok -> [kinds |-> {"NMEAParseError"}, why |-> "checksum", p |-> p, i |-> i]
               [] OTHER -> [kinds |-> ks, why |-> "", p |-> p, i |-> i]

-----------------------------------------------------------------------------
(* Judging a recorded message m against an interpretation.                  *)
(* m: [talker, id, mode, ident, pl, ck, at, ser, str, rp]                   *)
(*    at: sequence of [n, v (projected value), x (text of str(v))], by name *)
AttrByName(m) == LET N == [i \in DOMAIN m.at |-> m.at[i].n] IN N
AttrVal(m, n) == m.at[CHOOSE i \in DOMAIN m.at : m.at[i].n = n]
StrOf(m, i, names) ==
  T("<NMEA(") \o m.ident \o (IF i.src = "UNKN" THEN T(", NOMINAL") ELSE <<>>)
   \o FoldLeft(LAMBDA a, n : a \o T(", ") \o T(n) \o T("=") \o AttrVal(m, n).x, <<>>, names)
   \o T(")>")

HasGroup(n) == Len(n) > 3 /\ SubSeq(n, Len(n) - 2, Len(n) - 2) = "_" /\ SubSeq(n, Len(n), Len(n)) \in {"0","1","2","3","4","5","6","7","8","9"}
Tag(b, s) == IF b THEN {} ELSE {s}

AttrVerdict(out, m) ==
  LET want == {out[k].n : k \in DOMAIN out}
      got  == {m.at[k].n : k \in DOMAIN m.at}
  IN  (IF want = got THEN {} ELSE {"names"})
      \cup (IF {n \in want : HasGroup(n)} = {n \in got : HasGroup(n)} THEN {} ELSE {"groups"})
      \cup UNION { IF out[k].n \notin got \/ LastNamed(out, out[k].n) # k THEN {}
                   ELSE LET v == AttrVal(m, out[k].n).v
                            d == Decoded(out[k].t, out[k].v)
                            s == ForcedSign(out, k)
                        IN  IF ValueIs(d, v, s) THEN {}
                            ELSE IF s # 0 /\ (ValueIs(d, v, -s) \/ ValueIs(d, v, 0)) THEN {"hemi:" \o out[k].n}
                            ELSE {"value:" \o out[k].t \o ":" \o out[k].n}
                   : k \in DOMAIN out }

\* fields every message must expose unchanged
WireVerdict(p, mode, i, ck, m) ==
  Tag(m.talker = p.talker, "talker") \cup Tag(m.id = p.id, "msgID") \cup Tag(m.mode = mode, "mode")
  \cup Tag(m.pl = p.payload, "payload") \cup Tag(m.ck = ck, "checksum")
  \cup Tag(m.ser = Utf8Encode(<<DOLLAR>> \o p.content \o <<STAR>> \o ck \o <<CR, LF>>), "serialize")

MsgVerdict(p, mode, i, ck, m) ==
  WireVerdict(p, mode, i, ck, m)
  \cup (IF i.unspec THEN {}
        ELSE AttrVerdict(i.out, m)
             \cup Tag(m.ident = IdentityOf(p.talker, p.id, i.out), "identity")
             \cup (IF {i.out[k].n : k \in DOMAIN i.out} = {m.at[k].n : k \in DOMAIN m.at}
                   THEN Tag(m.str = StrOf(m, i, [k \in DOMAIN i.out |-> i.out[k].n]), "str") ELSE {}))

Expect(K) == IF "msg" \in K THEN "msg" ELSE IF "NMEATypeError" \in K THEN "type" ELSE "rej"
ParseVerdict(bytes, mode, val, ud, res) ==
  LET o == ParseOutcome(bytes, mode, val, ud) IN
  IF res.kind \notin o.kinds THEN {"kind:" \o o.why \o ":" \o Expect(o.kinds) \o ":" \o res.kind}
  ELSE IF res.kind = "msg" THEN MsgVerdict(o.p, mode, o.i, o.p.cksum, res.m)
  ELSE {}
=============================================================================
