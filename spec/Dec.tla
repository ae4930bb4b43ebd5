--------------------------------- MODULE Dec ---------------------------------
(***************************************************************************)
(* Exact decimal arithmetic on digit sequences (most significant first),   *)
(* because TLC integers are 32 bit.  A decimal is [n, g, e]: sign n (1 =   *)
(* negative), digits g, exponent e, denoting (-1)^n * g * 10^e.            *)
(***************************************************************************)
EXTENDS Text

Zeros(k) == [i \in 1..(IF k > 0 THEN k ELSE 0) |-> 0]
StripLead(g) == LET K == {i \in DOMAIN g : g[i] # 0}
                IN  IF K = {} THEN <<>>
                    ELSE SubSeq(g, CHOOSE i \in K : \A j \in K : i <= j, Len(g))
Norm(d) ==
  LET K == {i \in DOMAIN d.g : d.g[i] # 0}
  IN  IF K = {} THEN [n |-> 0, g |-> <<>>, e |-> 0]
      ELSE LET a == CHOOSE i \in K : \A j \in K : i <= j
               z == CHOOSE i \in K : \A j \in K : i >= j
           IN  [n |-> d.n, g |-> SubSeq(d.g, a, z), e |-> d.e + (Len(d.g) - z)]
DecEq(a, b)  == Norm(a) = Norm(b)
AbsEq(a, b)  == Norm([a EXCEPT !.n = 0]) = Norm([b EXCEPT !.n = 0])
IsZero(d)    == \A i \in DOMAIN d.g : d.g[i] = 0

\* natural numbers as digit sequences without leading zeros
Digits(t) == TLCEval([i \in DOMAIN t |-> t[i] - 48])          \* from digit text
NatDigits(n) == Digits(NatText(n))
CmpNat(a0, b0) ==
  LET a == StripLead(a0)  b == StripLead(b0) IN
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET D == {i \in DOMAIN a : a[i] # b[i]}
       IN  IF D = {} THEN 0
           ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j
                IN  IF a[i] < b[i] THEN -1 ELSE 1
\* fold from the least significant digit: acc = [c(arry), r(esult)]
RECURSIVE AddR(_, _, _)
AddR(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET x == IF a = <<>> THEN 0 ELSE Last1(a)
           y == IF b = <<>> THEN 0 ELSE Last1(b)
           s == x + y + c
       IN  Append(AddR(IF a = <<>> THEN a ELSE Front(a), IF b = <<>> THEN b ELSE Front(b), s \div 10), s % 10)
AddNat(a, b) == StripLead(AddR(a, b, 0))
RECURSIVE SubR(_, _, _)
SubR(a, b, c) ==          \* a >= b
  IF a = <<>> THEN <<>>
  ELSE LET x == Last1(a)
           y == (IF b = <<>> THEN 0 ELSE Last1(b)) + c
       IN  Append(SubR(Front(a), IF b = <<>> THEN b ELSE Front(b), IF x < y THEN 1 ELSE 0),
                  IF x < y THEN x + 10 - y ELSE x - y)
SubNat(a, b) == StripLead(SubR(StripLead(a), StripLead(b), 0))
DiffNat(a, b) == IF CmpNat(a, b) >= 0 THEN SubNat(a, b) ELSE SubNat(b, a)
RECURSIVE MulR(_, _, _)
MulR(a, m, c) == IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE NatDigits(c))
                 ELSE LET p == Last1(a) * m + c
                      IN  Append(MulR(Front(a), m, p \div 10), p % 10)
MulSmall(a, m) == StripLead(MulR(a, m, 0))            \* m <= 10^8
DivSmall(a, d) ==                                     \* d <= 10^8
  LET r == FoldLeft(LAMBDA s, x : LET v == s.r * 10 + x
                                  IN [q |-> Append(s.q, v \div d), r |-> v % d],
                    [q |-> <<>>, r |-> 0], a)
  IN  [q |-> StripLead(r.q), r |-> r.r]

\* |a - b| <= tol, all non-negative decimals
Align(a, e)  == a.g \o Zeros(a.e - e)                 \* digits of a at exponent e <= a.e
Min2(x, y)   == IF x < y THEN x ELSE y
Within(a, b, tol) ==
  LET e == Min2(Min2(a.e, b.e), tol.e)
  IN  CmpNat(DiffNat(Align(a, e), Align(b, e)), Align(tol, e)) <= 0

-----------------------------------------------------------------------------
(* Decimal text as accepted by float() for plain ASCII numerals.           *)
(* Result: st = "ok" (value given), "bad" (certainly not a number), or      *)
(* "any" (Python accepts or rejects it on rules outside the NMEA grammar:   *)
(* white space, underscores, inf/nan, non-ASCII digits, huge exponents).    *)
WeirdNum == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 95} \cup {UpC(c) : c \in {105, 110, 102, 116, 121, 97}}
InfNan == {UpC(c) : c \in {105, 110, 102, 116, 121, 97}}
HasDigit(t) == \E i \in DOMAIN t : t[i] >= 128 \/ IsDigit(t[i])
NumChars == (48..57) \cup {43, 45, 46, 69, 101}
BadNum == [st |-> "bad"]
AnyNum == [st |-> "any"]
SignOf(t) == IF Len(t) > 0 /\ t[1] \in {43, 45}
             THEN [n |-> IF t[1] = 45 THEN 1 ELSE 0, r |-> Tail(t)]
             ELSE [n |-> 0, r |-> t]
DecText(t) ==
  IF \E i \in DOMAIN t : t[i] \notin NumChars
  THEN IF /\ \A i \in DOMAIN t : t[i] \in NumChars \/ t[i] >= 128 \/ UpC(t[i]) \in WeirdNum
          /\ HasDigit(t) \/ \E i \in DOMAIN t : UpC(t[i]) \in InfNan THEN AnyNum ELSE BadNum
  ELSE
  LET s  == SignOf(t)
      pe == LET p == Pos(s.r, 101)  q == Pos(s.r, 69)
            IN  IF p = 0 THEN q ELSE IF q = 0 THEN p ELSE Min2(p, q)
      m  == IF pe = 0 THEN s.r ELSE SubSeq(s.r, 1, pe - 1)
      x  == IF pe = 0 THEN [n |-> 0, r |-> <<48>>] ELSE SignOf(SubSeq(s.r, pe + 1, Len(s.r)))
      pd == Pos(m, DOT)
      ip == IF pd = 0 THEN m ELSE SubSeq(m, 1, pd - 1)
      fp == IF pd = 0 THEN <<>> ELSE SubSeq(m, pd + 1, Len(m))
  IN  IF Len(ip) + Len(fp) = 0 \/ ~AllDigits(ip) \/ ~AllDigits(fp)
         \/ x.r = <<>> \/ ~AllDigits(x.r) THEN BadNum
      ELSE IF Len(x.r) > 3 THEN AnyNum
      ELSE LET ex == (IF x.n = 1 THEN -1 ELSE 1) * ToNat(x.r)
               v  == Norm([n |-> s.n, g |-> Digits(ip \o fp), e |-> ex - Len(fp)])
           IN  IF ex > 200 \/ ex < -200 \/ Len(ip) > 100 \/ Len(fp) > 100 THEN AnyNum
               ELSE [st |-> "ok", n |-> v.n, g |-> v.g, e |-> v.e]
IntText(t) ==
  IF \E i \in DOMAIN t : t[i] \notin ((48..57) \cup {43, 45})
  THEN IF HasDigit(t) /\ \A i \in DOMAIN t : t[i] \in ((48..57) \cup {43, 45}) \/ t[i] >= 128 \/ t[i] \in (WeirdNum \ InfNan) THEN AnyNum ELSE BadNum
  ELSE LET s == SignOf(t)
       IN  IF s.r = <<>> \/ ~AllDigits(s.r) THEN BadNum
           ELSE IF Len(s.r) > 300 THEN AnyNum
           ELSE LET v == Norm([n |-> s.n, g |-> Digits(s.r), e |-> 0])
                IN  [st |-> "ok", n |-> v.n, g |-> v.g, e |-> v.e]
=============================================================================
