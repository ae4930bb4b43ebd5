------------------------------- MODULE MCStack -------------------------------
(***************************************************************************)
(* The whole stack: wire - receives - (chunked) decoding - buffer - reader, *)
(* as one machine of small steps, for every way a wire can be cut into at   *)
(* most CFG.segs segments with at most CFG.fails failing receives anywhere. *)
(* Its behaviours are printed for replay into the real NMEAReader, and two  *)
(* independent accounts of it are checked:                                  *)
(*  Compose  - the reader of Reader.tla over StreamOf of Socket.tla (which  *)
(*             judge recorded runs) sees just what this machine sees;       *)
(*  Framed.. - what is delivered and reported, declaratively: the decoded   *)
(*             data, split where the reader was waiting when a receive      *)
(*             failed; each part is framed on its own.                      *)
(* MC (JSON): cases = list of [bodies, chunked, raw, codec], segs, fails;     *)
(* codec: what the chunk bodies decode to (<<>>: they are sent as they are).  *)
(***************************************************************************)
EXTENDS Socket
CFG   == JsonDeserialize(IOEnv.MC)
Cases == CFG.cases
VARIABLES case, w, dec, nseg, gaps, pos, from, pc, script, obs
vars == <<case, w, dec, nseg, gaps, pos, from, pc, script, obs>>

Wires == TLCEval([c \in DOMAIN Cases |-> IF Cases[c].chunked THEN WireOf(Cases[c].bodies) \o Cases[c].raw ELSE Cases[c].raw])
Wire == Wires[case]
Chunked == Cases[case].chunked
Codec == Cases[case].codec
Buf == dec.out

Init == /\ case \in DOMAIN Cases
        /\ w = 0 /\ dec = Dec0 /\ nseg = 0 /\ gaps = <<>> /\ pos = 0 /\ from = 0 /\ pc = "idle" /\ script = <<>> /\ obs = <<>>

(* The environment answers only when the reader waits. *)
LineAt  == LineEnd(Buf, "CRLF", pos + 1)
Waiting == pc # "done" /\ (IF pc = "line" THEN LineAt = 0 ELSE pos = Len(Buf))
Arrive == /\ Waiting /\ w < Len(Wire)
          /\ \E n \in IF nseg + 1 < CFG.segs THEN 1..(Len(Wire) - w) ELSE {Len(Wire) - w} :
               /\ w' = w + n /\ nseg' = nseg + 1 /\ script' = Append(script, n)
               /\ dec' = IF Chunked THEN DecSeg(Codec, dec, SubSeq(Wire, w + 1, w + n))
                         ELSE [dec EXCEPT !.out = @ \o SubSeq(Wire, w + 1, w + n)]
          /\ UNCHANGED <<case, gaps, pos, from, pc, obs>>
\* what a reader that gets nothing more makes of it
Dry == IF pc = "line" /\ Len(Buf) > pos THEN [x |-> "trunc", f |-> from, t |-> Len(Buf)] ELSE [x |-> "end", f |-> 0, t |-> 0]
GiveUp(next) == /\ obs' = Append(obs, Dry) /\ pos' = Len(Buf) /\ from' = 0 /\ pc' = next
Fail == /\ Waiting /\ w > 0 /\ w < Len(Wire) /\ Len(gaps) < CFG.fails
        /\ gaps' = Append(gaps, Len(Buf)) /\ script' = Append(script, -1) /\ GiveUp("idle")
        /\ UNCHANGED <<case, w, dec, nseg>>
Closed == /\ Waiting /\ w = Len(Wire) /\ GiveUp(IF Dry.x = "end" THEN "done" ELSE "idle")
          /\ UNCHANGED <<case, w, dec, nseg, gaps, script>>
(* The reader. *)
Quiet == UNCHANGED <<case, w, dec, nseg, gaps, script>>
Byte == Buf[pos + 1]
Skip == /\ pc = "idle" /\ ~Waiting /\ Byte # DOLLAR
        /\ LET j == NextIn(Buf, {DOLLAR}, pos + 1) IN pos' = IF j = 0 THEN Len(Buf) ELSE j - 1
        /\ UNCHANGED <<from, pc, obs>> /\ Quiet
Header == /\ pc \in {"idle", "hdr"} /\ ~Waiting /\ Byte = DOLLAR
          /\ pc' = "hdr" /\ from' = pos + 1 /\ pos' = pos + 1 /\ UNCHANGED obs /\ Quiet
Talker == /\ pc = "hdr" /\ ~Waiting /\ Byte \in TalkerStart
          /\ pc' = "line" /\ pos' = pos + 1 /\ UNCHANGED <<from, obs>> /\ Quiet
Reject == /\ pc = "hdr" /\ ~Waiting /\ Byte # DOLLAR /\ Byte \notin TalkerStart
          /\ obs' = Append(obs, [x |-> "foreign", f |-> from, t |-> from + 1])
          /\ pc' = "idle" /\ pos' = pos + 1 /\ from' = 0 /\ Quiet
Deliver == /\ pc = "line" /\ ~Waiting
           /\ obs' = Append(obs, [x |-> "sentence", f |-> from, t |-> LineAt])
           /\ pc' = "idle" /\ pos' = LineAt /\ from' = 0 /\ Quiet
Next == Arrive \/ Fail \/ Closed \/ Skip \/ Header \/ Talker \/ Reject \/ Deliver
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Whole == IF Chunked THEN FoldLeft(LAMBDA a, b : a \o b, <<>>, IF Codec = <<>> THEN Cases[case].bodies ELSE Codec) ELSE Wire
Done == pc = "done"
TypeOK == /\ pc \in {"idle", "hdr", "line", "done"} /\ pos \in 0..Len(Buf) /\ (pc \in {"hdr", "line"} <=> from > 0)
          /\ Buf = SubSeq(Whole, 1, Len(Buf))
AllArrives == Done => w = Len(Wire) /\ Buf = Whole /\ pos = Len(Buf)

\* the judge's account of the same script
RunJudge(S) ==
  LET RECURSIVE f(_, _, _)
      f(p, st, acc) ==
        LET r == FrameStep(S, p, st)
            e == r.ev
            a == CASE e.x = "step"     -> acc
                   [] e.x = "sentence" -> Append(acc, [x |-> "sentence", f |-> e.from, t |-> e.to])
                   [] e.x = "foreign"  -> Append(acc, [x |-> "foreign", f |-> e.at, t |-> e.at + 1])
                   [] e.x = "trunc"    -> Append(acc, [x |-> "trunc", f |-> e.at, t |-> r.st.av])
                   [] OTHER            -> Append(acc, [x |-> "end", f |-> 0, t |-> 0])
        IN  IF e.x = "eof" /\ (\A k \in (st.k + 1)..Len(S.av) : S.av[k] # -1) THEN a ELSE f(r.pc, r.st, a)
  IN  f("idle", St0, <<>>)
Compose == Done => obs = RunJudge(StreamOf(Wire, script, Chunked, Codec))

\* the declarative account
Cuts == <<0>> \o gaps \o <<Len(Whole)>>
Span(i) == SubSeq(Whole, Cuts[i] + 1, Cuts[i + 1])
Spans == 1..(Len(Cuts) - 1)
Of(x) == SelectSeq(obs, LAMBDA o : o.x = x)
FramesOfParts == FoldLeft(LAMBDA a, i : a \o LET F == Frames(Span(i), "CRLF", 1) IN [k \in DOMAIN F |-> <<Cuts[i] + F[k].from, Cuts[i] + F[k].to>>],
                          <<>>, [i \in Spans |-> i])
FramedSentences == Done => LET s == Of("sentence") IN [i \in DOMAIN s |-> <<s[i].f, s[i].t>>] = FramesOfParts
FramedForeign == Done => LET s == Of("foreign") IN
                   /\ {s[i].f : i \in DOMAIN s} = UNION {{Cuts[i] + p : p \in Foreign(Span(i), "CRLF")} : i \in Spans}
                   /\ Cardinality({s[i].f : i \in DOMAIN s}) = Len(s)
FramedTrunc == Done => Len(Of("trunc")) = Cardinality({i \in Spans : Unfinished(Span(i), "CRLF")})
\* C07: without failures only the data matters, not the segments
SameAsFile == Done /\ gaps = <<>> => LET s == Of("sentence") IN
                [i \in DOMAIN s |-> [from |-> s[i].f, to |-> s[i].t]] = Frames(Whole, "CRLF", 1)
\* C10: a sentence whose bytes no failing receive separates is delivered
NoneLost == Done /\ gaps # <<>> =>
   \A f \in ToSet(Frames(Whole, "CRLF", 1)) :
      \/ \E g \in ToSet(gaps) : f.from <= g /\ g < f.to
      \/ \E o \in ToSet(obs) : o.x = "sentence" /\ o.f = f.from /\ o.t = f.to
Terminates == <>Done
Emit == Done => PrintT("@@" \o ToJson([c |-> case, s |-> script, b |-> obs]))
=============================================================================
