------------------------------ MODULE MCSocket ------------------------------
(***************************************************************************)
(* Every segmentation of small wires, with failing receives at any place,   *)
(* under several patterns of calls; complete behaviours are printed.        *)
(* MC (JSON): cases = list of [bodies, chunked, raw] ; calls = list of call *)
(* patterns (0: readline, n > 0: read(n), repeated cyclically); fails.      *)
(***************************************************************************)
EXTENDS Socket
CFG   == JsonDeserialize(IOEnv.MC)
Cases == CFG.cases
VARIABLES case, calls, w, dec, gaps, pos, pc, acc, script, res, ncall, dead
vars == <<case, calls, w, dec, gaps, pos, pc, acc, script, res, ncall, dead>>

C == Cases[case]
Wires == TLCEval([c \in DOMAIN Cases |-> IF Cases[c].chunked THEN WireOf(Cases[c].bodies) \o Cases[c].raw ELSE Cases[c].raw])
Wire == Wires[case]
Pat == CFG.calls[calls]
Op  == Pat[(ncall % Len(Pat)) + 1]
Buf == dec.out

Init == /\ case \in DOMAIN Cases /\ calls \in DOMAIN CFG.calls
        /\ w = 0 /\ dec = Dec0 /\ gaps = 0 /\ pos = 0 /\ pc = "ready" /\ acc = 0 /\ script = <<>> /\ res = <<>> /\ ncall = 0 /\ dead = 0

\* acc: where the bytes of the current call begin
Begin == /\ pc = "ready" /\ dead < 2
         /\ pc' = "busy" /\ acc' = pos
         /\ UNCHANGED <<case, calls, w, dec, gaps, pos, script, res, ncall, dead>>
\* enough buffered to answer?
LineAt == LineEnd(Buf, "CRLF", pos + 1)
Satisfied == IF Op = 0 THEN LineAt # 0 ELSE Len(Buf) - pos >= Op
Answer == IF Op = 0 THEN LineAt ELSE pos + Op
Return == /\ pc = "busy" /\ Satisfied
          /\ pos' = Answer /\ res' = Append(res, [op |-> Op, f |-> pos + 1, t |-> Answer])
          /\ pc' = "ready" /\ ncall' = ncall + 1
          /\ UNCHANGED <<case, calls, w, dec, gaps, acc, script, dead>>
Arrive == \E n \in 1..(Len(Wire) - w) :
          /\ pc = "busy" /\ ~Satisfied
          /\ w' = w + n
          /\ dec' = IF C.chunked THEN DecSeg(<<>>, dec, SubSeq(Wire, w + 1, w + n))
                    ELSE [dec EXCEPT !.out = @ \o SubSeq(Wire, w + 1, w + n)]
          /\ script' = Append(script, n)
          /\ UNCHANGED <<case, calls, gaps, pos, pc, acc, res, ncall, dead>>
\* a failing receive ends the call: nothing for read, what there is for a line
GiveUp == LET q == IF Op = 0 THEN Len(Buf) ELSE pos IN
          /\ pos' = q /\ res' = Append(res, [op |-> Op, f |-> pos + 1, t |-> q])
          /\ pc' = "ready" /\ ncall' = ncall + 1
Fail ==   /\ pc = "busy" /\ ~Satisfied /\ w < Len(Wire) /\ w > 0 /\ gaps < CFG.fails
          /\ gaps' = gaps + 1 /\ script' = Append(script, -1) /\ GiveUp
          /\ UNCHANGED <<case, calls, w, dec, acc, dead>>
Closed == /\ pc = "busy" /\ ~Satisfied /\ w = Len(Wire)
          /\ dead' = dead + 1 /\ GiveUp
          /\ UNCHANGED <<case, calls, w, dec, gaps, acc, script>>
Next == Begin \/ Return \/ Arrive \/ Fail \/ Closed
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Whole == IF C.chunked THEN FoldLeft(LAMBDA a, b : a \o b, <<>>, C.bodies) ELSE Wire
\* decoded so far is a prefix of what was sent and depends only on what arrived
DecodedSoFar == Buf = (IF C.chunked THEN Arrived(C.bodies, w) ELSE SubSeq(Wire, 1, w))
\* returned bytes follow each other without gap or overlap
\* decoding byte by byte or in runs of body bytes comes to the same
DecSegSame == C.chunked => dec = DecSeg1(<<>>, Dec0, SubSeq(Wire, 1, w))
NoLoss   == \A i \in DOMAIN res : res[i].f = (IF i = 1 THEN 1 ELSE res[i - 1].t + 1)
Lines    == \A i \in DOMAIN res : res[i].op = 0 /\ res[i].t >= res[i].f =>
               LET x == SubSeq(Whole, res[i].f, res[i].t) IN
               \A k \in 2..(Len(x) - 1) : ~(x[k - 1] = CR /\ x[k] = LF)
Sizes    == \A i \in DOMAIN res : res[i].op > 0 => res[i].t - res[i].f + 1 \in {0, res[i].op}
AllRead  == dead = 2 => w = Len(Wire) /\ Buf = Whole
Terminates == <>(dead = 2)
Emit == dead = 2 => PrintT("@@" \o ToJson([c |-> case, p |-> calls, s |-> script, r |-> res]))
=============================================================================
