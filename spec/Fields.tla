------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* Attribute types: what a field's text means (Decoded) and what text a    *)
(* value must be written as (TextOK).                                      *)
(*                                                                         *)
(* Projected values, as recorded from the implementation:                  *)
(*   [t |-> "s", s |-> text]        [t |-> "f"/"i", n, g, e] (Dec)         *)
(*   [t |-> "d", a |-> <<y,m,d>>]   [t |-> "t", a |-> <<h,m,s,us>>]        *)
(*   [t |-> "o", ...] anything else                                        *)
(***************************************************************************)
EXTENDS Dec, Calendar

TextTypes == {"CH", "ST", "LAD", "LND", "QS", "HX"}
DateTypes == {"DT", "DTL", "DM"}
PosTypes  == {"LA", "LN"}
Types     == TextTypes \cup DateTypes \cup PosTypes \cup {"DE", "IN", "TM"}

Str(t) == [st |-> "ok", k |-> "s", s |-> t]
EmptyStr == Str(<<>>)
TypeErr == [st |-> "err"]
AnyOf(K) == [st |-> "any", k |-> K]            \* some value whose tag is in K
Num(k, d) == [st |-> "ok", k |-> k, n |-> d.n, g |-> d.g, e |-> d.e]

-----------------------------------------------------------------------------
(* (d)ddmm.mmm -> degrees *)
PosDecode(t) ==
  LET dp == Pos(t, DOT) IN
  IF dp < 5 THEN EmptyStr
  ELSE LET a == SubSeq(t, 1, dp - 3)
           b == SubSeq(t, dp - 2, dp - 1)
           f == SubSeq(t, dp + 1, Len(t))
       IN IF AllDigits(a) /\ AllDigits(b) /\ AllDigits(f)
          THEN [st |-> "ok", k |-> "p", deg |-> Digits(a), min |-> Digits(b), fr |-> Digits(f)]
          ELSE IF \E i \in DOMAIN t : t[i] \notin NumChars /\ t[i] < 128 /\ UpC(t[i]) \notin WeirdNum
               THEN EmptyStr
               ELSE IF Pos(f, DOT) # 0 THEN EmptyStr
               ELSE AnyOf({"s", "f"})
\* is v the position p, in degrees to 10 decimal places?
PosIs(p, v) ==
  /\ v.t = "f"
  /\ \/ Len(StripLead(p.deg)) > 3 \/ Len(p.fr) > 10
     \/ LET m   == AddNat(MulSmall(p.deg, 60), StripLead(p.min))
            q   == DivSmall(m \o p.fr \o Zeros(10 - Len(p.fr)), 60)
            up  == [n |-> 0, g |-> AddNat(q.q, <<1>>), e |-> -10]
            dn  == [n |-> 0, g |-> q.q, e |-> -10]
            av  == [n |-> 0, g |-> v.g, e |-> v.e]
        IN  IF Len(p.fr) > 7 \/ q.r = 30 THEN DecEq(av, up) \/ DecEq(av, dn)
            ELSE IF q.r > 30 THEN DecEq(av, up) ELSE DecEq(av, dn)

-----------------------------------------------------------------------------
(* hhmmss or hhmmss.f{1,6} *)
TwoD(t, i) == ToNat(SubSeq(t, i, i + 1))
TimeShape(t) == \/ Len(t) = 6 /\ AllDigits(t)
                \/ /\ Len(t) \in 8..13 /\ t[7] = DOT
                   /\ \A i \in DOMAIN t : i = 7 \/ IsDigit(t[i])
TimeDecode(t) ==
  IF TimeShape(t)
  THEN LET h == TwoD(t, 1)  m == TwoD(t, 3)  s == TwoD(t, 5)
           f == IF Len(t) = 6 THEN <<>> ELSE SubSeq(t, 8, Len(t))
           us == ToNat(f \o [i \in 1..(6 - Len(f)) |-> 48])
       IN  IF h < 24 /\ m < 60 /\ s < 60
           THEN [st |-> "ok", k |-> "t", a |-> <<h, m, s, us>>] ELSE EmptyStr
  ELSE IF IsAscii(t) THEN EmptyStr
  ELSE AnyOf({"s", "t"})
TimeText(a) == PadText(a[1], 2) \o PadText(a[2], 2) \o PadText(a[3], 2) \o <<DOT>> \o PadText(a[4] \div 10000, 2)

(* ddmmyy, ddmmyyyy, mmddyy; two-digit years denote 1969..2068 *)
Pivot(y) == IF y >= 69 THEN 1900 + y ELSE 2000 + y
DateDecode(t, form) ==
  LET L == IF form = "DTL" THEN 8 ELSE 6 IN
  IF Len(t) = L /\ AllDigits(t)
  THEN LET d == IF form = "DM" THEN TwoD(t, 3) ELSE TwoD(t, 1)
           m == IF form = "DM" THEN TwoD(t, 1) ELSE TwoD(t, 3)
           y == IF form = "DTL" THEN ToNat(SubSeq(t, 5, 8)) ELSE Pivot(TwoD(t, 5))
       IN  IF ValidDate(y, m, d) THEN [st |-> "ok", k |-> "d", a |-> <<y, m, d>>] ELSE EmptyStr
  ELSE IF IsAscii(t) THEN EmptyStr
  ELSE AnyOf({"s", "d"})
DateText(a, form) ==
  LET d == PadText(a[3], 2)  m == PadText(a[2], 2)  y2 == PadText(a[1] % 100, 2)  y4 == PadText(a[1], 4)
  IN  CASE form = "DM" -> m \o d \o y2 [] form = "DTL" -> d \o m \o y4 [] OTHER -> d \o m \o y2

-----------------------------------------------------------------------------
(* The decoded value of field text t under attribute type ty. *)
Decoded(ty, t) ==
  CASE ty \in TextTypes -> Str(t)
    [] ty = "DE" -> IF t = <<>> THEN EmptyStr
                    ELSE LET d == DecText(t) IN
                         CASE d.st = "ok" -> Num("f", d) [] d.st = "bad" -> TypeErr
                           [] OTHER -> [st |-> "maybe", k |-> {"f"}]
    [] ty = "IN" -> IF t = <<>> THEN EmptyStr
                    ELSE LET d == IntText(t) IN
                         CASE d.st = "ok" -> Num("i", d) [] d.st = "bad" -> TypeErr
                           [] OTHER -> [st |-> "maybe", k |-> {"i"}]
    [] ty \in PosTypes  -> PosDecode(t)
    [] ty \in DateTypes -> DateDecode(t, ty)
    [] ty = "TM"        -> TimeDecode(t)
    [] OTHER            -> TypeErr

(* Does recorded value v carry the decoded meaning d?  sg: 0 keep the sign  *)
(* of the text, 1 force non-negative, -1 force negative (hemisphere rule).  *)
SignOK(v, n, sg) == IsZero(v) \/ v.n = (CASE sg = 0 -> n [] sg = 1 -> 0 [] OTHER -> 1)
ValueIs(d, v, sg) ==
  CASE d.st \in {"any", "maybe"} -> v.t \in d.k
    [] d.k = "s" -> v.t = "s" /\ v.s = d.s
    [] d.k = "f" -> /\ v.t = "f"
                    /\ \/ Len(d.g) > 15 \/ AbsEq(v, d)
                    /\ SignOK(v, d.n, sg)
    [] d.k = "i" -> v.t = "i" /\ AbsEq(v, d) /\ SignOK(v, d.n, sg)
    [] d.k = "p" -> PosIs(d, v) /\ SignOK(v, 0, sg)
    [] OTHER     -> v.t = d.k /\ v.a = d.a

IsNum(v) == v.t \in {"f", "i"}

-----------------------------------------------------------------------------
(* Decimal degrees (>= 0, [g, e]) written as ddmm.mmmmm / dddmm.mmmmm with dp *)
(* decimals: fixed width, minutes below 60, within half a unit.              *)
PosTextOK(v, t, ty, hp) ==
  LET dp == IF hp THEN 7 ELSE 5
      dw == IF ty = "LA" THEN 2 ELSE 3
      L  == dw + 3 + dp
  IN /\ Len(t) = L /\ t[dw + 3] = DOT
     /\ \A i \in DOMAIN t : i = dw + 3 \/ IsDigit(t[i])
     /\ TwoD(t, dw + 1) < 60
     /\ LET Y == AddNat(MulSmall(Digits(SubSeq(t, 1, dw)), 60), StripLead(Digits(SubSeq(t, dw + 1, dw + 2))))
        IN  Within([g |-> Y \o Digits(SubSeq(t, dw + 4, L)), e |-> -dp],
                   [g |-> MulSmall(v.g, 60), e |-> v.e],
                   [g |-> <<5, 0, 0, 1>>, e |-> -(dp + 4)])

NumTextOK(v, t) == LET d == DecText(t) IN d.st = "ok" /\ DecEq(d, v)

TextOK(ty, v, t, hp) ==
  CASE ty \in TextTypes -> (v.t = "s" => t = v.s) /\ (IsNum(v) => NumTextOK(v, t))
    [] ty = "DE" -> (IsNum(v) => NumTextOK(v, t)) /\ (v.t = "s" => t = v.s)
    [] ty = "IN" -> (v.t = "i" => (LET d == IntText(t) IN d.st = "ok" /\ DecEq(d, v))) /\ (v.t = "s" => t = v.s)
    [] ty \in PosTypes -> (IsNum(v) => PosTextOK(v, t, ty, hp)) /\ (v.t = "s" => t = <<>>)
    [] ty = "TM" -> (v.t = "t" => t = TimeText(v.a)) /\ (v.t = "s" => t = Without(v.s, {58}))
    [] ty \in DateTypes ->
         /\ v.t = "d" => t = DateText(v.a, ty)
         /\ v.t = "s" => LET s == Without(v.s, {45}) IN
              Len(s) = 8 => t = (CASE ty = "DM"  -> SubSeq(s, 5, 8) \o SubSeq(s, 3, 4)
                                   [] ty = "DTL" -> SubSeq(s, 7, 8) \o SubSeq(s, 5, 6) \o SubSeq(s, 1, 4)
                                   [] OTHER      -> SubSeq(s, 7, 8) \o SubSeq(s, 5, 6) \o SubSeq(s, 3, 4))
    [] OTHER -> TRUE

(* Nominal value of an attribute not given when building. *)
NominalOK(ty, v, mode) ==
  CASE ty \in {"CH", "ST", "LA", "LN"} -> v.t = "s" /\ v.s = <<>>
    [] ty = "LAD" -> v.t = "s" /\ v.s = <<78>>
    [] ty = "LND" -> v.t = "s" /\ v.s = <<69>>
    [] ty = "HX"  -> v.t = "s" /\ v.s = <<48>>
    [] ty = "DE"  -> IsNum(v) /\ IsZero(v)
    [] ty = "IN"  -> v.t = "i" /\ IsZero(v)
    [] ty = "TM"  -> v.t = "t"
    [] ty \in DateTypes -> v.t = "d"
    [] ty = "QS"  -> v.t = "s" /\ v.s = (CASE mode = 2 -> <<82>> [] mode = 1 -> <<87>> [] OTHER -> <<79, 75>>)
    [] OTHER -> FALSE

(* [y, mo, d, h, mi, s] time stamps taken around the call *)
LexLE(a, b) == LET D == {i \in 1..Len(a) : a[i] # b[i]}
               IN  D = {} \/ LET i == CHOOSE i \in D : \A j \in D : i <= j IN a[i] < b[i]
InWindow(v, t0, t1) ==
  CASE v.t = "d" -> LexLE(SubSeq(t0, 1, 3), v.a) /\ LexLE(v.a, SubSeq(t1, 1, 3))
    [] v.t = "t" -> SubSeq(t0, 1, 3) # SubSeq(t1, 1, 3)
                    \/ (LexLE(SubSeq(t0, 4, 6), SubSeq(v.a, 1, 3)) /\ LexLE(SubSeq(v.a, 1, 3), SubSeq(t1, 4, 6)))
    [] OTHER -> TRUE
=============================================================================
