--------------------------------- MODULE Geo ---------------------------------
(***************************************************************************)
(* Required results of the geodetic helpers, judged with 24-decimal        *)
(* fixed-point arithmetic.  Arguments are the decimal texts of the floats. *)
(* Tolerances are a few units of double-precision rounding of the          *)
(* intermediate quantities each formula has.                               *)
(***************************************************************************)
EXTENDS Fix
Tol(k) == FE(<<1>>, -k)
TolN(m, k) == FE(<<m>>, -k)
Args(a) == TLCEval([i \in DOMAIN a |-> FDec(a[i])])
Near(x, y, t) == FLE(FAbs(FSub(x, y)), t)

\* great circle distance d on a sphere of radius r: cos(d / r)
HavOK(e) ==
  LET a == Args(e.a)
      d == FDec(e.r)  r == FDec(e.radius)
      X == FSub(SinCos(FSub(a[3], a[1])).c,
                FMul(FMul(SinCos(a[1]).c, SinCos(a[3]).c), FSub(FOne, SinCos(FSub(a[4], a[2])).c)))
      t == FMul(FDiv(d, r), Deg1)
  IN  d.n = 0 /\ FLE(t, FAdd(FInt(180), Tol(12))) /\ Near(SinCos(t).c, X, TolN(4, 15))
\* planar approximation: d^2 = r^2 ((dlon cos lat1)^2 + dlat^2)
PlanarOK(e) ==
  LET a == Args(e.a)
      d == FDec(e.r)  r == FDec(e.radius)
      dl == FMul(FMul(FSub(a[4], a[2]), Rad1), SinCos(a[1]).c)
      dp == FMul(FSub(a[3], a[1]), Rad1)
      S == FAdd(FMul(dl, dl), FMul(dp, dp))
      u == FDiv(d, r)
      w == FAdd(TolN(3, 15), FMul(u, TolN(2, 15)))
      lo == IF FLE(u, w) THEN FInt(0) ELSE FSub(u, w)
      hi == FAdd(u, w)
  IN  d.n = 0 /\ FLE(FMul(lo, lo), FAdd(S, Tol(23))) /\ FLE(S, FMul(hi, hi))
\* initial bearing in degrees clockwise from north
BearOK(e) ==
  LET a == Args(e.a)
      th == FDec(e.r)
      p1 == TLCEval(SinCos(a[1]))  p2 == TLCEval(SinCos(a[3]))  dl == TLCEval(SinCos(FSub(a[4], a[2])))
      y == FMul(dl.s, p2.c)
      x == FSub(FMul(p1.c, p2.s), FMul(FMul(p1.s, p2.c), dl.c))
      T0 == TLCEval(SinCos(th))
  IN  /\ th.n = 0 /\ FLE(th, FInt(360)) /\ th # FInt(360)
      /\ Near(FMul(T0.s, x), FMul(T0.c, y), TolN(4, 15))
      /\ FLE(FNeg(TolN(4, 15)), FAdd(FMul(T0.s, y), FMul(T0.c, x)))
\* area of the latitude-longitude rectangle
AreaOK(e) ==
  LET a == Args(e.a)
      r == FDec(e.radius)  A == FDiv(FDec(e.r), FMul(r, r))
      ds == FAbs(FSub(SinCos(a[1]).s, SinCos(a[3]).s))
      dl == FMul(FAbs(FSub(a[4], a[2])), Rad1)
  IN  A.n = 0 /\ Near(A, FMul(ds, dl), FAdd(FMul(dl, TolN(2, 15)), FAdd(FMul(ds, TolN(4, 15)), Tol(20))))

\* earth-centred coordinates of lat, lon, h on the ellipsoid (a, 1/f)
RECURSIVE InvSqrt(_, _, _, _)
InvSqrt(u, term, k, acc) ==                            \* (1-u)^(-1/2), 0 <= u <= 0.02
  IF k > 14 \/ term.m = <<>> THEN acc
  ELSE LET t == TLCEval(FDivS(FMul(FMul(term, u), FInt(2 * k - 1)), 2 * k)) IN InvSqrt(u, t, k + 1, TLCEval(FAdd(acc, t)))
Ecef(lat, lon, h, a, f) ==
  LET g == TLCEval(FDiv(FOne, f))
      e2 == TLCEval(FMul(g, FSub(FInt(2), g)))
      p == TLCEval(SinCos(lat))  l == TLCEval(SinCos(lon))
      N == TLCEval(FMul(a, InvSqrt(TLCEval(FMul(e2, FMul(p.s, p.s))), FOne, 1, FOne)))
      q == TLCEval(FMul(FAdd(N, h), p.c))
  IN  <<FMul(q, l.c), FMul(q, l.s), FMul(FAdd(FMul(FSub(FOne, e2), N), h), p.s)>>
EcefOK(e) ==
  LET v == Args(e.a)  a == FDec(e.major)
      X == TLCEval(Ecef(v[1], v[2], v[3], a, FDec(e.flat)))
      t == FMul(FAdd(a, FAbs(v[3])), TolN(2, 15))
  IN  \A i \in 1..3 : Near(FDec(e.r[i]), X[i], t)
\* the inverse: the result denotes the given point
LlhOK(e) ==
  LET v == Args(e.r)  x == Args(e.a)  a == FDec(e.major)
      X == TLCEval(Ecef(v[1], v[2], v[3], a, FDec(e.flat)))
      t == FMul(FAdd(FAdd(a, FAbs(x[1])), FAdd(FAbs(x[2]), FAbs(x[3]))), Tol(14))
  IN  /\ FLE(FAbs(v[1]), FInt(90)) /\ FLE(FAbs(v[2]), FInt(180))
      /\ \A i \in 1..3 : Near(x[i], X[i], t)
\* round trip of a position
LlhRtOK(e) ==
  LET v == Args(e.a)  r == Args(e.r)  a == FDec(e.major)
      t == TolN(2, 14)
      td == FMul(t, FInt(58))
      dl == FSub(v[2], r[2])
  IN  /\ Near(v[1], r[1], td) /\ Near(v[3], r[3], FMul(FAdd(a, FAbs(v[3])), t))
      /\ FLE(FAbs(FMul(SinCos(dl).s, SinCos(v[1]).c)), t) /\ (FLE(FInt(0), SinCos(dl).c) \/ FLE(SinCos(v[1]).c, t))
\* speed conversion: r = k * c
SpeedOK(e) == LET k == FDec(e.k) IN Near(FDec(e.r), FMul(k, FDec(e.c)), FMul(FAbs(k), Tol(15)))

NumSeq(s, n) == Len(s) = n /\ \A i \in 1..n : s[i].t \in {"i", "f"}
IsFloat(v) == v.t \in {"i", "f"}
GeoVerdict(e) ==
  CASE e.op = "haversine" -> IF IsFloat(e.r) /\ HavOK(e) THEN {} ELSE {"haversine"}
    [] e.op = "planar"    -> IF IsFloat(e.r) /\ PlanarOK(e) THEN {} ELSE {"planar"}
    [] e.op = "bearing"   -> IF IsFloat(e.r) /\ BearOK(e) THEN {} ELSE {"bearing"}
    [] e.op = "area"      -> IF IsFloat(e.r) /\ AreaOK(e) THEN {} ELSE {"area"}
    [] e.op = "llh2ecef"  -> IF NumSeq(e.r, 3) /\ EcefOK(e) THEN {} ELSE {"llh2ecef"}
    [] e.op = "ecef2llh"  -> IF NumSeq(e.r, 3) /\ LlhOK(e) THEN {} ELSE {"ecef2llh"}
    [] e.op = "llhrt"     -> IF NumSeq(e.r, 3) /\ LlhRtOK(e) THEN {} ELSE {"llh-ecef-llh"}
    [] e.op = "knots"     -> IF IsFloat(e.r) /\ SpeedOK(e) THEN {} ELSE {"knots2spd"}
    [] OTHER -> {"unknown-op:" \o e.op}
=============================================================================
