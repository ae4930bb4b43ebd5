------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* The stream reader.                                                      *)
(*                                                                         *)
(* A stream S is a record                                                  *)
(*   d   : bytes that arrive, in order (after any transfer decoding)       *)
(*   av  : what the successive receives bring: number of bytes of d        *)
(*         available after the receive, or -1 for a receive that fails     *)
(*         (timeout, error).  When av is used up every receive fails       *)
(*         (end of file, closed connection).  A file is <<Len(d)>>.        *)
(*   eol : "LF" (files: a line runs to LF) or "CRLF" (socket wrapper)      *)
(* Options o: [nmeaonly, quit (0 ignore, 1 log/handle, 2 raise)].          *)
(*                                                                         *)
(* State of the reader: position in d, receives used, bytes available; and *)
(* pc, where one read() call stands.  Each action is one step of a call.   *)
(***************************************************************************)
EXTENDS Message

IGNORE == 0  LOG == 1  RAISE == 2

NextIn(d, S, i) ==                    \* least index >= i with d[index] in S, 0 if none
  LET RECURSIVE f(_, _)
      f(j, w) == IF j > Len(d) THEN 0
                 ELSE LET h == Min2(j + w, Len(d))
                          I == {k \in j..h : d[k] \in S}
                      IN  IF I = {} THEN f(h + 1, 4 * w) ELSE CHOOSE k \in I : \A x \in I : k <= x
  IN  f(i, 31)
\* index of the last byte of the line that starts at index i, 0 if it never ends
LineEnd(d, eol, i) ==
  LET RECURSIVE f(_)
      f(j) == LET e == NextIn(d, {LF}, j) IN
              IF e = 0 THEN 0
              ELSE IF eol = "LF" \/ (e > i /\ d[e - 1] = CR) THEN e ELSE f(e + 1)
  IN  f(i)

St0 == [pos |-> 0, k |-> 0, av |-> 0]
\* make n bytes available: [ok, st]
Fetch(S, st, n) ==
  LET RECURSIVE f(_)
      f(s) == IF s.av - s.pos >= n THEN [ok |-> TRUE, st |-> s]
              ELSE IF s.k = Len(S.av) THEN [ok |-> FALSE, st |-> s]
              ELSE IF S.av[s.k + 1] = -1 THEN [ok |-> FALSE, st |-> [s EXCEPT !.k = @ + 1]]
              ELSE f([s EXCEPT !.k = @ + 1, !.av = S.av[s.k + 1]])
  IN  f(st)
\* read a line: [full, st, from, to]
GetLine(S, st) ==
  LET e == LineEnd(S.d, S.eol, st.pos + 1)
      n == (IF e = 0 THEN Len(S.d) + 1 ELSE e) - st.pos
      r == Fetch(S, st, n)
  IN  IF r.ok THEN [full |-> TRUE, from |-> st.pos + 1, to |-> e, st |-> [r.st EXCEPT !.pos = e]]
      ELSE [full |-> FALSE, from |-> st.pos + 1, to |-> r.st.av, st |-> [r.st EXCEPT !.pos = r.st.av]]

-----------------------------------------------------------------------------
(* Framing: from state st, the next thing a read() call comes across.       *)
(*  ev.x: "sentence" [from, to], "foreign" header [at], "trunc", "eof",      *)
(*        "step" (nothing visible yet).                                     *)
(* pc: "idle" or "hdr" ('$' was the last byte read).                        *)
FrameStep(S, pc, st) ==
  LET r == Fetch(S, st, 1)
      b == S.d[st.pos + 1]
      s1 == [r.st EXCEPT !.pos = @ + 1]
  IN
  IF ~r.ok THEN [pc |-> "idle", st |-> r.st, ev |-> [x |-> "eof"]]
  ELSE IF pc = "idle" THEN
    \* jump over everything available that cannot start a sentence
    IF b = DOLLAR THEN [pc |-> "hdr", st |-> s1, ev |-> [x |-> "step"]]
    ELSE LET j == NextIn(S.d, {DOLLAR}, st.pos + 1)
             q == IF j = 0 \/ j > r.st.av THEN r.st.av ELSE j - 1
         IN  [pc |-> "idle", st |-> [r.st EXCEPT !.pos = q], ev |-> [x |-> "step"]]
  ELSE IF b = DOLLAR THEN [pc |-> "hdr", st |-> s1, ev |-> [x |-> "step"]]
  ELSE IF b \notin TalkerStart THEN [pc |-> "idle", st |-> s1, ev |-> [x |-> "foreign", at |-> st.pos]]
  ELSE LET g == GetLine(S, s1) IN
       IF g.full THEN [pc |-> "idle", st |-> g.st, ev |-> [x |-> "sentence", from |-> st.pos, to |-> g.to]]
       ELSE IF g.to < g.from THEN [pc |-> "idle", st |-> g.st, ev |-> [x |-> "eof"]]
       ELSE [pc |-> "idle", st |-> g.st, ev |-> [x |-> "trunc", at |-> st.pos]]

-----------------------------------------------------------------------------
(* Declarative meaning of a file, against which the steps are checked.      *)
\* start of the first sentence at or after i (0: none)
RECURSIVE FrameStart(_, _)
FrameStart(d, i) ==
  LET j == NextIn(d, {DOLLAR}, i) IN
  IF j = 0 \/ j = Len(d) THEN 0 ELSE IF d[j + 1] \in TalkerStart THEN j ELSE FrameStart(d, j + 1)
RECURSIVE Frames(_, _, _)
Frames(d, eol, i) ==
  LET j == FrameStart(d, i) IN
  IF j = 0 THEN <<>>
  ELSE LET e == LineEnd(d, eol, j + 2) IN
       IF e = 0 THEN <<>> ELSE <<[from |-> j, to |-> e]>> \o Frames(d, eol, e + 1)
\* positions of foreign headers: '$' outside sentences before a byte that is
\* neither '$' nor starts a talker
Foreign(d, eol) ==
  LET F == ToSet(Frames(d, eol, 1))
      lastEnd == IF F = {} THEN 0 ELSE CHOOSE e \in {f.to : f \in F} : \A g \in F : e >= g.to
      tr == FrameStart(d, lastEnd + 1)            \* an unfinished sentence swallows the rest
  IN  {i \in 1..(Len(d) - 1) : /\ d[i] = DOLLAR /\ d[i + 1] # DOLLAR /\ d[i + 1] \notin TalkerStart
                               /\ \A f \in F : ~(f.from <= i /\ i <= f.to)
                               /\ (tr = 0 \/ i < tr)}
\* an unfinished sentence with at least one byte after its header
Unfinished(d, eol) ==
  LET F == Frames(d, eol, 1)
      tr == FrameStart(d, (IF F = <<>> THEN 0 ELSE F[Len(F)].to) + 1)
  IN  tr # 0 /\ tr + 2 <= Len(d)
=============================================================================
