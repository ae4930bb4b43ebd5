---------------------------- MODULE TraceSocket ----------------------------
(***************************************************************************)
(* Recorded runs of the socket wrapper: wire, script, chunked, codec and    *)
(* ops: [op: 0 readline / n read(n), out: bytes, left: bytes then buffered] *)
(***************************************************************************)
EXTENDS Socket
TRACE == JsonDeserialize(IOEnv.TRACE)
Runs  == TRACE.runs
Streams == TLCEval([r \in DOMAIN Runs |-> TLCEval(StreamOf(Runs[r].wire, Runs[r].script, Runs[r].chunked, Runs[r].codec))])
VARIABLES run, st, nxt, verdict
vars == <<run, st, nxt, verdict>>
Init == run \in DOMAIN Runs /\ st = St0 /\ nxt = 1 /\ verdict = "running"
R == Runs[run]
S == Streams[run]
Call ==
  /\ verdict = "running" /\ nxt <= Len(R.ops)
  /\ LET o == R.ops[nxt]
         x == IF o.op = 0 THEN DoLine(S, st) ELSE DoRead(S, st, o.op)
         v == CASE o.kind # "ok" -> "kind:" \o o.kind
                [] o.out # x.out -> IF o.op = 0 THEN "line" ELSE "read"
                [] "left" \in DOMAIN o -> IF o.left = SubSeq(S.d, x.st.pos + 1, x.st.av) THEN "running" ELSE "left"
                [] OTHER -> "running"
     IN  /\ st' = x.st /\ nxt' = nxt + 1 /\ verdict' = v
         /\ v # "running" => PrintT("@@" \o ToString(run) \o "|" \o ToString(nxt) \o "|" \o v)
  /\ UNCHANGED run
Finish ==
  /\ verdict = "running" /\ nxt > Len(R.ops)
  /\ LET v == IF st.k = Len(S.av) /\ st.pos = Len(S.d) THEN "conforms" ELSE "unread" IN
     verdict' = v /\ PrintT("@@" \o ToString(run) \o "|" \o ToString(nxt) \o "|" \o v)
  /\ UNCHANGED <<run, st, nxt>>
Next == Call \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
