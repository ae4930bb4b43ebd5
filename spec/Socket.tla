------------------------------- MODULE Socket -------------------------------
(***************************************************************************)
(* The socket wrapper: transfer decoding and what each receive makes        *)
(* available.                                                               *)
(*                                                                          *)
(* A wire is the byte string sent; chunked decoding is a byte automaton:    *)
(*   m: "size" (reading a size line, text in sz), "body" (left bytes to      *)
(*      come, taken in b), "trail" (left bytes of the CRLF after a body),    *)
(*      "end" (after the zero chunk), "bad" (malformed: unspecified).        *)
(*   out: decoded bytes, nb: number of chunk bodies completed.               *)
(* Each body is passed through a codec, given as the sequence of decoded     *)
(* bodies (one per chunk) or <<>> for none.                                  *)
(***************************************************************************)
EXTENDS Reader

Dec0 == [m |-> "size", sz |-> <<>>, left |-> 0, b |-> <<>>, out |-> <<>>, nb |-> 0]
HexDig(c) == c \in (48..57) \cup (65..70) \cup (97..102)
HexNum(t) == FoldLeft(LAMBDA a, c : a * 16 + (IF c <= 57 THEN c - 48 ELSE UpC(c) - 55), 0, t)
DecByte(codec, s, c) ==
  CASE s.m = "size" ->
         IF c = LF /\ s.sz # <<>> /\ Last1(s.sz) = CR THEN
           LET t == SubSeq(s.sz, 1, Len(s.sz) - 1) IN
           IF t = <<>> \/ Len(t) > 6 \/ \E i \in DOMAIN t : ~HexDig(t[i]) THEN [s EXCEPT !.m = "bad"]
           ELSE LET n == HexNum(t) IN
                IF n = 0 THEN [s EXCEPT !.m = "end", !.sz = <<>>]
                ELSE [s EXCEPT !.m = "body", !.sz = <<>>, !.left = n, !.b = <<>>]
         ELSE [s EXCEPT !.sz = Append(@, c)]
    [] s.m = "body" ->
         LET b == Append(s.b, c) IN
         IF s.left > 1 THEN [s EXCEPT !.left = @ - 1, !.b = b]
         ELSE [s EXCEPT !.m = "trail", !.left = 2, !.b = <<>>, !.nb = @ + 1,
                        !.out = @ \o (IF codec = <<>> THEN b ELSE codec[s.nb + 1])]
    [] s.m = "trail" -> IF c # (IF s.left = 2 THEN CR ELSE LF) THEN [s EXCEPT !.m = "bad"]
                        ELSE IF s.left = 2 THEN [s EXCEPT !.left = 1] ELSE [s EXCEPT !.m = "size", !.left = 0]
    [] OTHER -> s
DecSeg1(codec, s, seg) == FoldLeft(LAMBDA a, c : DecByte(codec, a, c), s, seg)
\* the same, body bytes taken together (DecSegSame of MCSocket: they agree)
DecSeg(codec, s0, seg) ==
  LET RECURSIVE f(_, _)
      f(s, i) == IF i > Len(seg) THEN s
                 ELSE IF s.m = "body" /\ s.left > 1
                      THEN LET n == Min2(s.left - 1, Len(seg) - i + 1)
                           IN  f([s EXCEPT !.left = @ - n, !.b = @ \o SubSeq(seg, i, i + n - 1)], i + n)
                 ELSE f(DecByte(codec, s, seg[i]), i + 1)
  IN  f(s0, 1)

(* What each receive brings.  script: segment lengths, -1 for a failure.    *)
StreamOf(wire, script, chunked, codec) ==
  LET step(a, n) ==
        IF n = -1 THEN [a EXCEPT !.av = Append(@, -1)]
        ELSE LET s == IF chunked THEN DecSeg(codec, a.s, SubSeq(wire, a.w + 1, a.w + n)) ELSE a.s
             IN  [w |-> a.w + n, s |-> s, av |-> Append(a.av, IF chunked THEN Len(s.out) ELSE a.w + n)]
      z == FoldLeft(step, [w |-> 0, s |-> Dec0, av |-> <<>>], script)
  IN  [d |-> IF chunked THEN z.s.out ELSE SubSeq(wire, 1, z.w), av |-> z.av, eol |-> "CRLF", m |-> z.s.m]

(* Declarative: the bodies whose last byte has arrived, concatenated.       *)
SizeText(n) == IF n = 0 THEN <<48>>
               ELSE LET RECURSIVE f(_) f(k) == IF k = 0 THEN <<>> ELSE Append(f(k \div 16), HexC(k % 16)) IN f(n)
CRLFs == <<CR, LF>>
ChunkWire(b) == SizeText(Len(b)) \o CRLFs \o b \o CRLFs
WireOf(bodies) == FoldLeft(LAMBDA a, b : a \o ChunkWire(b), <<>>, bodies)
Arrived(bodies, w) ==
  FoldLeft(LAMBDA a, b : LET e == a.at + Len(ChunkWire(b)) IN
                         [at |-> e, out |-> IF e - 2 <= w THEN a.out \o b ELSE a.out],
           [at |-> 0, out |-> <<>>], bodies).out

(* Wrapper operations. *)
DoRead(S, st, n) == LET r == Fetch(S, st, n) IN
  IF r.ok THEN [st |-> [r.st EXCEPT !.pos = @ + n], out |-> SubSeq(S.d, st.pos + 1, st.pos + n)]
  ELSE [st |-> r.st, out |-> <<>>]
DoLine(S, st) == LET g == GetLine(S, st) IN [st |-> g.st, out |-> SubSeq(S.d, g.from, g.to)]
=============================================================================
