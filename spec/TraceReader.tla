---------------------------- MODULE TraceReader ----------------------------
(***************************************************************************)
(* Validation of recorded runs of the reader (files and sockets).  Every    *)
(* run is one behaviour: the framing steps of Reader, each bound to what    *)
(* the caller of the real reader saw.  The record of a run:                 *)
(*   d               bytes of the file (with av, as in Reader, for a serial  *)
(*                   port or growing file), or, for a socket:               *)
(*   wire, script, chunked, codec   as in Socket                            *)
(*   o               options: nmeaonly, quit, handler, mode, val, ud        *)
(*   al              results of parsing each framed sentence on its own,    *)
(*                   in order, or <<>> when the specification is to say     *)
(*   items           what the caller saw, in order:                         *)
(*     [x: "pair", raw, r]  [x: "err", k, via]  [x: "raise", k]  [x: "end"] *)
(*     [x: "take", n, out]: the caller read n bytes of the stream himself    *)
(*     and, optionally, with what a call returned: pos (where the file then  *)
(*     stood) or left (how many bytes the socket wrapper held)               *)
(***************************************************************************)
EXTENDS Socket
TRACE == JsonDeserialize(IOEnv.TRACE)
Runs  == TRACE.runs
Streams == TLCEval([r \in DOMAIN Runs |->
             IF "wire" \in DOMAIN Runs[r] THEN TLCEval(StreamOf(Runs[r].wire, Runs[r].script, Runs[r].chunked, Runs[r].codec))
             ELSE [d |-> Runs[r].d, av |-> IF "av" \in DOMAIN Runs[r] THEN Runs[r].av ELSE <<Len(Runs[r].d)>>, eol |-> "LF", m |-> ""]])
NoUd  == [x \in {} |-> <<>>]
Ud(k) == IF k = 0 THEN NoUd ELSE TRACE.uds[k]

VARIABLES run, pc, st, nxt, cnt, verdict   \* nxt: next item, cnt: sentences so far
vars == <<run, pc, st, nxt, cnt, verdict>>
Init == run \in DOMAIN Runs /\ pc = "idle" /\ st = St0 /\ nxt = 1 /\ cnt = 0 /\ verdict = "running"

R == Runs[run]
S == Streams[run]
O == R.o
Item == IF nxt <= Len(R.items) THEN R.items[nxt] ELSE [x |-> "none"]
What(it) == it.x \o (IF it.x \in {"err", "raise"} THEN ":" \o it.k ELSE "")

Boom == "boom" \in DOMAIN O /\ O.handler /\ O.boom
Ok(n) == [n |-> n, bad |-> ""]
Bad(s) == [n |-> 0, bad |-> s]
\* an error of one of the kinds K occurred: what must the caller have seen?
MatchErr(K, what) ==
  CASE O.quit = IGNORE -> Ok(0)
    [] O.quit = LOG    -> IF /\ Item.x = "err" /\ Item.via = (IF O.handler THEN "h" ELSE "l")
                             /\ (Item.via = "h" => Item.k \in K)
                          THEN IF ~Boom THEN Ok(1)     \* a handler that raises: the caller gets it
                               ELSE IF nxt < Len(R.items) /\ R.items[nxt + 1].x = "raise" /\ R.items[nxt + 1].k = "exc:Boom" THEN Ok(2)
                               ELSE Bad("error:handler")
                          ELSE Bad("error:" \o what \o ":" \o What(Item))
    [] OTHER           -> IF Item.x = "raise" /\ Item.k \in K THEN Ok(1) ELSE Bad("error:" \o what \o ":" \o What(Item))

ErrorKinds == {"NMEAParseError", "NMEAMessageError", "NMEATypeError", "NMEAStreamError"}
MatchSentence(raw) ==
  LET own == R.al # <<>>
      K == IF own THEN {R.al[cnt + 1].kind} ELSE ParseOutcome(raw, O.mode, O.val, Ud(O.ud)).kinds
      good == K \cap {"msg", "none"}
      here == Item.x = "pair" /\ Item.raw = raw
  IN
  IF here THEN
    IF Item.r.kind \notin K THEN Bad("result:kind:" \o Item.r.kind)
    ELSE IF own THEN (IF Item.r = R.al[cnt + 1] THEN Ok(1) ELSE Bad("result:differs"))
    ELSE LET v == ParseVerdict(raw, O.mode, O.val, Ud(O.ud), Item.r)
         IN  IF v = {} THEN Ok(1) ELSE Bad("result:" \o ToString(v))
  ELSE IF K \ {"msg", "none"} # {} THEN
    LET m == MatchErr(K, "sentence") IN
    IF good # {} /\ m.bad # "" THEN Bad("sentence:either:" \o What(Item)) ELSE m
  ELSE IF Item.x = "pair" THEN Bad("frame:raw")
  ELSE IF Item.x \in {"err", "raise"} /\ Item.k \in ErrorKinds THEN Bad("result:error:" \o Item.k)
  ELSE Bad("frame:lost:" \o What(Item))

Match(e) ==
  CASE e.x = "step"     -> Ok(0)
    [] e.x = "foreign"  -> IF O.nmeaonly THEN MatchErr({"NMEAParseError"}, "foreign") ELSE Ok(0)
    [] e.x = "trunc"    -> MatchErr({"NMEAStreamError"}, "trunc")
    [] e.x = "eof"      -> IF Item.x = "end" THEN Ok(1)
                           ELSE Bad((IF Item.x = "pair" THEN "frame:extra" ELSE "end:") \o What(Item))
    [] OTHER            -> MatchSentence(SubSeq(S.d, e.from, e.to))

\* what the call left behind: position in a file, bytes waiting in a wrapper
MatchUse(s, it) ==
  CASE "pos" \in DOMAIN it -> IF it.pos = s.pos THEN "" ELSE "use:pos"
    [] "left" \in DOMAIN it -> IF it.left = s.av - s.pos THEN "" ELSE "use:left"
    [] OTHER -> ""

Running == verdict = "running"
Finish ==      \* all items explained: nothing of the stream may be left
  /\ Running /\ nxt > Len(R.items)
  /\ LET v == IF st.k = Len(S.av) /\ st.pos = st.av /\ pc = "idle" THEN "conforms" ELSE "frame:unread" IN
       verdict' = v /\ PrintT("@@" \o ToString(run) \o "|" \o ToString(nxt) \o "|" \o v)
  /\ UNCHANGED <<run, pc, st, nxt, cnt>>
\* the caller reads from the stream himself, between two calls of the reader
Take ==
  /\ Running /\ Item.x = "take" /\ pc = "idle"
  /\ LET x == IF S.eol = "CRLF" THEN DoRead(S, st, Item.n)
              ELSE LET r == Fetch(S, st, Item.n).st
                       q == Min2(r.pos + Item.n, r.av)
                   IN  [st |-> [r EXCEPT !.pos = q], out |-> SubSeq(S.d, st.pos + 1, q)]
         v == IF Item.out = x.out THEN "running" ELSE "use:take"
     IN  /\ st' = x.st /\ nxt' = nxt + 1 /\ verdict' = v
         /\ v # "running" => PrintT("@@" \o ToString(run) \o "|" \o ToString(nxt) \o "|" \o v)
  /\ UNCHANGED <<run, pc, cnt>>
Consume ==
  /\ Running /\ nxt <= Len(R.items) /\ Item.x # "take"
  /\ LET s == FrameStep(S, pc, st)
         m0 == Match(s.ev)
         u == IF m0.bad = "" /\ m0.n > 0 THEN MatchUse(s.st, R.items[nxt + m0.n - 1]) ELSE ""
         m == IF u = "" THEN m0 ELSE Bad(u)
     IN  /\ pc' = s.pc /\ st' = s.st /\ nxt' = nxt + m.n
         /\ cnt' = IF s.ev.x = "sentence" THEN cnt + 1 ELSE cnt
         /\ verdict' = IF m.bad = "" THEN "running" ELSE m.bad
         /\ m.bad # "" => PrintT("@@" \o ToString(run) \o "|" \o ToString(nxt) \o "|" \o m.bad)
  /\ UNCHANGED run
Next == Consume \/ Take \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
