-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Trace validation of single calls.  The trace is a JSON object           *)
(*   [uds |-> user tables, ev |-> sequence of events];                     *)
(* every event is judged in one step, independently (the specification of  *)
(* these calls has no state: that is property C26).  The verdict is total: *)
(* for every event exactly one line "@@<n>|<class>|<violated clauses>".    *)
(***************************************************************************)
EXTENDS Build, Helpers, Repr, Decodes

TRACE == JsonDeserialize(IOEnv.TRACE)
Ev  == TRACE.ev
N   == Len(Ev)
NoUd == [x \in {} |-> <<>>]
Ud(k) == IF k = 0 THEN NoUd ELSE TRACE.uds[k]

SetText(S) == ToString(S)

ClassOf(e) ==
  IF e.op = "parse" THEN
    LET o == ParseOutcome(e.msg, e.mode, e.val, Ud(e.ud)) IN
      o.why \o "/" \o ToString(o.kinds)
      \o (IF "i" \in DOMAIN o THEN "/" \o o.i.src \o (IF o.i.def THEN "+def" ELSE "") \o (IF o.i.unspec THEN "+unspec" ELSE "") ELSE "")
  ELSE IF e.op = "build" THEN
    LET o == BuildOutcome(e.talker, e.id, e.mode, e.val, Ud(e.ud), e.kw) IN o.kind \o "/" \o o.why \o "/" \o o.src \o (IF o.def THEN "+def" ELSE "")
  ELSE ""

NewVerdict(e) ==      \* constructor with payload
  IF e.mode \notin Modes THEN Tag(e.res.kind = "NMEAMessageError", "new:mode:" \o e.res.kind)
  ELSE LET i  == Interpret(e.talker, e.id, e.mode, e.val, Ud(e.ud), e.pl)
           ks == {IF k = "msg" THEN k ELSE "NMEA" \o k : k \in i.kinds}
           c  == Content(e.talker, e.id, e.pl)
           p  == [talker |-> e.talker, id |-> e.id, payload |-> e.pl, content |-> c]
       IN  IF e.res.kind \notin ks THEN {"new:kind:" \o e.res.kind}
           ELSE IF e.res.kind # "msg" THEN {}
           ELSE MsgVerdict(p, e.mode, i, IF e.ck = <<>> THEN ChecksumOf(c) ELSE e.ck, e.res.m)

Verdict(e) ==
  CASE e.op = "parse" -> ParseVerdict(e.msg, e.mode, e.val, Ud(e.ud), e.res)
    [] e.op = "new"   -> NewVerdict(e)
    [] e.op = "build" -> BuildVerdict([e EXCEPT !.udt = Ud(e.ud)])
    [] e.op = "same"  -> Tag(e.a = e.b, "same:" \o e.what)
    [] e.op = "repr"  -> ReprVerdict(e)
    [] e.op = "decode" -> Tag(DecodeOK(e), "decode:" \o e.t)
    [] OTHER          -> HelperVerdict(e)

VARIABLES l, verdict
vars == <<l, verdict>>
Init == l \in 1..N /\ verdict = "pending"
JudgeStep ==
  /\ verdict = "pending"
  /\ l' = l
  /\ LET v == Verdict(Ev[l]) IN
       /\ verdict' = IF v = {} THEN "conforms" ELSE "violates"
       /\ PrintT("@@" \o ToString(l) \o "|" \o Ev[l].op \o ":" \o ClassOf(Ev[l]) \o "|" \o SetText(v))
Next == JudgeStep
Spec == Init /\ [][Next]_vars
=============================================================================
