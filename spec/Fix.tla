--------------------------------- MODULE Fix ---------------------------------
(***************************************************************************)
(* Exact fixed-point arithmetic with trigonometry, on top of Dec.          *)
(* A natural is a little-endian sequence of limbs 0..9999 without trailing *)
(* zero limbs; a fixed-point number [n, m] is (-1)^n * m * 10^-24.  All     *)
(* truncations are below 10^-22, far below the tolerances used in Geo.     *)
(***************************************************************************)
EXTENDS Dec
LimbB  == 10000
FR == 6                                                \* fraction limbs

TrimHi(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a
             ELSE LET K == {i \in DOMAIN a : a[i] # 0}
                  IN  IF K = {} THEN <<>> ELSE SubSeq(a, 1, CHOOSE i \in K : \A j \in K : i >= j)
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Tailing(_)
Tailing(c) == IF c = 0 THEN <<>> ELSE <<c % LimbB>> \o Tailing(c \div LimbB)
Carry(c) ==
  LET r == FoldLeft(LAMBDA s, x : LET v == s.c + x IN [c |-> v \div LimbB, r |-> Append(s.r, v % LimbB)],
                    [c |-> 0, r |-> <<>>], c)
  IN  TrimHi(r.r \o Tailing(r.c))
Max2(a, b) == IF a > b THEN a ELSE b
NAdd(a, b) == Carry([i \in 1..Max2(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)])
NCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
              ELSE LET D == {i \in DOMAIN a : a[i] # b[i]}
                   IN  IF D = {} THEN 0
                       ELSE LET i == CHOOSE i \in D : \A j \in D : i >= j IN IF a[i] < b[i] THEN -1 ELSE 1
NSub(a, b) ==                                          \* a >= b
  LET r == FoldLeft(LAMBDA s, i : LET v == a[i] - Limb(b, i) - s.c
                                  IN IF v < 0 THEN [c |-> 1, r |-> Append(s.r, v + LimbB)] ELSE [c |-> 0, r |-> Append(s.r, v)],
                    [c |-> 0, r |-> <<>>], [i \in 1..Len(a) |-> i])
  IN  TrimHi(r.r)
RECURSIVE Dot(_, _, _, _, _, _)
Dot(a, b, k, i, hi, acc) == IF i > hi THEN acc ELSE Dot(a, b, k, i + 1, hi, acc + a[i] * b[k + 1 - i])
NMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |-> Dot(a, b, k, Max2(1, k + 1 - Len(b)), IF k < Len(a) THEN k ELSE Len(a), 0)])
NShr(a) == IF Len(a) <= FR THEN <<>> ELSE SubSeq(a, FR + 1, Len(a))
NDivS(a, d) ==                                         \* d <= 200000
  LET r == FoldLeft(LAMBDA s, i : LET v == s.r * LimbB + a[Len(a) + 1 - i] IN [q |-> <<v \div d>> \o s.q, r |-> v % d],
                    [q |-> <<>>, r |-> 0], [i \in 1..Len(a) |-> i])
  IN  TrimHi(r.q)

\* fixed point
Fx(n, m)  == [n |-> IF m = <<>> THEN 0 ELSE n, m |-> m]
FNeg(x)   == Fx(1 - x.n, x.m)
FAbs(x)   == Fx(0, x.m)
FAdd(x, y) == IF x.n = y.n THEN Fx(x.n, NAdd(x.m, y.m))
              ELSE IF NCmp(x.m, y.m) >= 0 THEN Fx(x.n, NSub(x.m, y.m)) ELSE Fx(y.n, NSub(y.m, x.m))
FSub(x, y) == FAdd(x, FNeg(y))
FMul(x, y) == Fx((x.n + y.n) % 2, NShr(NMul(x.m, y.m)))
FInt(k)    == Fx(IF k < 0 THEN 1 ELSE 0, [i \in 1..FR |-> 0] \o Tailing(IF k < 0 THEN -k ELSE k))
FDivS(x, d) == Fx(x.n, NDivS(x.m, d))
FLE(x, y)  == LET d == FSub(y, x) IN d.n = 0
\* digits (most significant first) with exponent e to fixed point
RECURSIVE Groups(_)
Groups(g) == IF g = <<>> THEN <<>>
             ELSE IF Len(g) <= 4 THEN <<FoldLeft(LAMBDA a, x : a * 10 + x, 0, g)>>
             ELSE Groups(SubSeq(g, Len(g) - 3, Len(g))) \o Groups(SubSeq(g, 1, Len(g) - 4))
FDec(v) ==
  LET k == v.e + 4 * FR
      g == IF k >= 0 THEN v.g \o Zeros(k) ELSE IF Len(v.g) <= -k THEN <<>> ELSE SubSeq(v.g, 1, Len(v.g) + k)
  IN  Fx(v.n, TrimHi(Groups(g)))
FE(g, e) == FDec([n |-> 0, g |-> g, e |-> e])

\* x / y, y > 0: long division, one limb at a time, by bisection
RECURSIVE Bis(_, _, _, _)
Bis(r, y, lo, hi) == IF hi - lo <= 1 THEN lo               \* largest q with q * y <= r
                     ELSE LET m == (lo + hi) \div 2
                          IN  IF NCmp(Carry([i \in DOMAIN y |-> y[i] * m]), r) <= 0 THEN Bis(r, y, m, hi) ELSE Bis(r, y, lo, m)
FDiv(x, y) ==
  LET n == [i \in 1..FR |-> 0] \o x.m
      r == FoldLeft(LAMBDA s, i : LET v == TrimHi(<<n[Len(n) + 1 - i]>> \o s.r)
                                      q == IF NCmp(v, y.m) < 0 THEN 0 ELSE Bis(v, y.m, 0, LimbB)
                                  IN  [q |-> <<q>> \o s.q, r |-> IF q = 0 THEN v ELSE NSub(v, Carry([j \in DOMAIN y.m |-> y.m[j] * q]))],
                    [q |-> <<>>, r |-> <<>>], [i \in 1..Len(n) |-> i])
  IN  Fx(x.n, TrimHi(r.q))

\* constants: pi/180 and 180/pi
Rad1 == FE(<<0,1,7,4,5,3,2,9,2,5,1,9,9,4,3,2,9,5,7,6,9,2,3,6,9,0>>, -26)
Deg1 == FE(<<5,7,2,9,5,7,7,9,5,1,3,0,8,2,3,2,0,8,7,6,7,9,8,1,5,4>>, -24)
FOne == FInt(1)
\* sin and cos of r radians, 0 <= r <= pi/4, by Taylor series
RECURSIVE Taylor(_, _, _, _)
Taylor(x2, term, k, acc) ==                            \* next term = term * -x2 / ((k+1)(k+2))
  IF k > 24 \/ term.m = <<>> THEN acc
  ELSE LET t == TLCEval(FNeg(FDivS(FMul(term, x2), (k + 1) * (k + 2))))
       IN  Taylor(x2, t, k + 2, TLCEval(FAdd(acc, t)))
SC1(r) == LET x2 == TLCEval(FMul(r, r)) IN [s |-> Taylor(x2, r, 1, r), c |-> Taylor(x2, FOne, 0, FOne)]
RECURSIVE Quad(_, _)
Quad(x, q) == IF FLE(FInt(90), x) THEN Quad(FSub(x, FInt(90)), q + 1) ELSE [x |-> x, q |-> q % 4]
\* sin and cos of x degrees
SinCos(x) ==
  LET w  == Quad(FAbs(x), 0)
      up == ~FLE(w.x, FInt(45))
      b  == TLCEval(SC1(FMul(IF up THEN FSub(FInt(90), w.x) ELSE w.x, Rad1)))
      s  == IF up THEN b.c ELSE b.s
      c  == IF up THEN b.s ELSE b.c
      S  == CASE w.q = 0 -> s [] w.q = 1 -> c [] w.q = 2 -> FNeg(s) [] w.q = 3 -> FNeg(c)
      C  == CASE w.q = 0 -> c [] w.q = 1 -> FNeg(s) [] w.q = 2 -> FNeg(c) [] w.q = 3 -> s
  IN  [s |-> IF x.n = 1 THEN FNeg(S) ELSE S, c |-> C]
=============================================================================
