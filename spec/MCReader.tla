------------------------------ MODULE MCReader ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the reader on all streams up to a bound, with *)
(* every option; the complete behaviours are printed for replay.           *)
(* ALPHA: the pieces streams are made of (JSON list of byte lists);        *)
(* MAXLEN: pieces per stream; EOL, CUTS: socket eol, all segmentations.    *)
(***************************************************************************)
EXTENDS Reader
CFG    == JsonDeserialize(IOEnv.MC)
Pieces == CFG.pieces
Shard  == CFG.shard      \* [i, n]: print only every n-th stream (replay budget)

VARIABLES seq, opt, pc, st, obs
vars == <<seq, opt, pc, st, obs>>
Bytes == FoldLeft(LAMBDA a, i : a \o Pieces[i], <<>>, seq)
S == [d |-> Bytes, av |-> <<Len(Bytes)>>, eol |-> CFG.eol]
NoUd == [x \in {} |-> <<>>]

Init == /\ seq \in UNION {[1..n -> 1..Len(Pieces)] : n \in CFG.min..CFG.max}
        /\ opt \in [nmeaonly : BOOLEAN, quit : {IGNORE, LOG, RAISE}, val : ToSet(CFG.val)]
        /\ pc = "idle" /\ st = St0 /\ obs = <<>>

Kinds(a, b) == ParseOutcome(SubSeq(S.d, a, b), GET, opt.val, NoUd).kinds
ErrItem(kind) == CASE opt.quit = IGNORE -> <<>>
                   [] opt.quit = LOG    -> <<[x |-> "err", k |-> kind]>>
                   [] OTHER             -> <<[x |-> "raise", k |-> kind]>>
Step == FrameStep(S, pc, st)
\* what the caller sees of a framing event
Visible(e) ==
  CASE e.x = "step" -> {<<>>}
    [] e.x = "eof"  -> {<<[x |-> "end"]>>}
    [] e.x = "trunc" -> {ErrItem("NMEAStreamError")}
    [] e.x = "foreign" -> IF opt.nmeaonly THEN {ErrItem("NMEAParseError")} ELSE {<<>>}
    [] OTHER -> {IF k \in {"msg", "none"} THEN <<[x |-> "pair", k |-> k, f |-> e.from, t |-> e.to]>> ELSE ErrItem(k) : k \in Kinds(e.from, e.to)}

Running == pc # "done"
Do(x) == /\ Running /\ Step.ev.x = x
         /\ \E v \in Visible(Step.ev) : obs' = obs \o v
         /\ st' = Step.st /\ pc' = (IF x = "eof" THEN "done" ELSE Step.pc)
         /\ UNCHANGED <<seq, opt>>
Scan == Do("step")  Deliver == Do("sentence")  Reject == Do("foreign")  Truncate == Do("trunc")  Finish == Do("eof")
Next == Scan \/ Deliver \/ Reject \/ Truncate \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* Properties of the design. *)
Sent == SelectSeq(obs, LAMBDA o : o.x = "pair")
Errs == SelectSeq(obs, LAMBDA o : o.x \in {"err", "raise"})
FS   == Frames(S.d, S.eol, 1)
Good(f) == Kinds(f.from, f.to) \cap {"msg", "none"} # {}
TypeOK == pc \in {"idle", "hdr", "done"} /\ st.pos \in 0..Len(S.d) /\ st.av \in {0, Len(S.d)}
\* C01: delivered sentences are framed ones, in order
InOrder == /\ \A i \in DOMAIN Sent : \E f \in ToSet(FS) : f.from = Sent[i].f /\ f.to = Sent[i].t
           /\ \A i \in 2..Len(Sent) : Sent[i - 1].t < Sent[i].f
\* ... and at the end exactly those whose parsing gives a message or None
GoodCount == Cardinality({i \in DOMAIN FS : Good(FS[i])})
Complete == pc = "done" => Len(Sent) = GoodCount
\* C03, C04, C05: one error per offending item, none when ignored
ErrorCount == pc = "done" =>
   Len(Errs) = (IF opt.quit = IGNORE THEN 0
                ELSE (Len(FS) - GoodCount)
                     + (IF opt.nmeaonly THEN Cardinality(Foreign(S.d, S.eol)) ELSE 0)
                     + (IF Unfinished(S.d, S.eol) THEN 1 ELSE 0))
RaisedOnlyIfAsked == \A i \in DOMAIN obs : obs[i].x = "raise" => opt.quit = RAISE
\* C04: the end is reached and is the last thing seen
EndLast == \A i \in DOMAIN obs : obs[i].x = "end" => i = Len(obs)
Terminates == <>(pc = "done")
\* progress: every step but the end moves on
Moves == [][pc' = "done" \/ st'.pos > st.pos]_vars

Emit == (pc = "done" /\ (FoldLeft(LAMBDA a, i : a * 7 + i, 0, seq) % Shard[2]) = Shard[1]) =>
        PrintT("@@" \o ToJson([s |-> seq, o |-> opt, b |-> obs]))
=============================================================================
