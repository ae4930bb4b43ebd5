------------------------------- MODULE Helpers -------------------------------
(* Required results of the public helper functions, one verdict per call.   *)
EXTENDS Message, GnssTime, Geo

\* conversions of recorded arguments
MsOf(a) == ((a[4] * 60 + a[5]) * 60 + a[6]) * 1000 + (IF Len(a) >= 7 THEN a[7] \div 1000 ELSE 0)
InstLE(a, b) == a.d < b.d \/ (a.d = b.d /\ a.ms <= b.ms)
Inst(a) == [d |-> DayNo(a[1], a[2], a[3]), ms |-> MsOf(a)]

DEG == 176  PRIME == 8242  DPRIME == 8243
Letter(v, att) == LET neg == v.n = 1 /\ ~IsZero(v)
                  IN IF att = "LA" THEN (IF neg THEN 83 ELSE 78) ELSE (IF neg THEN 87 ELSE 69)
Plain(t) == t # <<>> /\ \A i \in DOMAIN t : IsDigit(t[i]) \/ t[i] = DOT
Below60(d) == Norm(d).g = <<>> \/ (LET x == IF d.e >= 0 THEN d.g \o Zeros(d.e) ELSE d.g
                                   IN CmpNat(x, <<6, 0>> \o Zeros(-d.e)) < 0)
PosE(k) == [g |-> <<5, 0, 0, 1>>, e |-> k - 4]        \* half of 10^(k+...) plus a little: 0.5001 * 10^k

\* D°M.m′X denotes v to 7 decimals of a minute
DmmOK(v, att, t) ==
  LET p1 == Pos(t, DEG)  p2 == Pos(t, PRIME) IN
  /\ p1 > 1 /\ p2 > p1 + 1 /\ Len(t) = p2 + 1 /\ t[p2 + 1] = Letter(v, att)
  /\ LET d == SubSeq(t, 1, p1 - 1)  m == SubSeq(t, p1 + 1, p2 - 1) IN
     /\ AllDigits(d) /\ Plain(m)
     /\ LET md == DecText(m) IN
        /\ md.st = "ok" /\ md.e >= -7 /\ Below60(md)
        /\ LET e == Min2(md.e, 0) IN
           Within([g |-> AddNat(MulSmall(Digits(d), 60) \o Zeros(-e), StripLead(md.g \o Zeros(md.e - e))), e |-> e],
                  [g |-> MulSmall(v.g, 60), e |-> v.e], [g |-> <<5, 0, 0, 1>>, e |-> -11])
\* D°M′S.s″X denotes v to 5 decimals of a second
DmsOK(v, att, t) ==
  LET p1 == Pos(t, DEG)  p2 == Pos(t, PRIME)  p3 == Pos(t, DPRIME) IN
  /\ p1 > 1 /\ p2 > p1 + 1 /\ p3 > p2 + 1 /\ Len(t) = p3 + 1 /\ t[p3 + 1] = Letter(v, att)
  /\ LET d == SubSeq(t, 1, p1 - 1)  m == SubSeq(t, p1 + 1, p2 - 1)  s == SubSeq(t, p2 + 1, p3 - 1) IN
     /\ AllDigits(d) /\ AllDigits(m) /\ Len(m) <= 2 /\ ToNat(m) < 60 /\ Plain(s)
     /\ LET sd == DecText(s) IN
        /\ sd.st = "ok" /\ sd.e >= -5 /\ Below60(sd)
        /\ LET e == Min2(sd.e, 0)
               b == AddNat(MulSmall(AddNat(MulSmall(Digits(d), 60), StripLead(Digits(m))), 60) \o Zeros(-e),
                           StripLead(sd.g \o Zeros(sd.e - e)))
           IN Within([g |-> b, e |-> e], [g |-> MulSmall(v.g, 3600), e |-> v.e], [g |-> <<5, 0, 0, 1>>, e |-> -9])

\* value of d, m, s texts against r rounded to 7 places
DmsDegOK(e) ==
  LET tot == LET sd == DecText(e.s)  x == Min2(sd.e, 0)
             IN [g |-> AddNat(MulSmall(AddNat(MulSmall(Digits(e.d), 60), StripLead(Digits(e.m))), 60) \o Zeros(-x),
                              StripLead(sd.g \o Zeros(sd.e - x))), e |-> x]
  IN /\ IsNum(e.r) /\ Within(tot, [g |-> MulSmall(e.r.g, 3600), e |-> e.r.e], [g |-> <<1, 8, 0, 1>>, e |-> -7])
     /\ (IsZero(e.r) \/ e.r.n = (IF e.h \in {"S", "W"} THEN 1 ELSE 0))

\* the digits x, with at most one dot, denote |v|
PlainEq(v, x) ==
  /\ Plain(x)
  /\ LET pd == Pos(x, DOT)
         g  == IF pd = 0 THEN x ELSE SubSeq(x, 1, pd - 1) \o SubSeq(x, pd + 1, Len(x))
     IN  AllDigits(g) /\ AbsEq([n |-> 0, g |-> v.g, e |-> v.e], [n |-> 0, g |-> Digits(g), e |-> IF pd = 0 THEN 0 ELSE pd - Len(x)])
\* +lat+lon+altCRSxxx/
IsoOK(e) ==
  LET t == e.r
      S == SetToSortSeq({i \in 1..Len(t) : t[i] \in {43, 45}}, <)
      c == T("CRS") \o e.crs \o T("/")
      sg(v) == IF v.n = 1 /\ ~IsZero(v) THEN 45 ELSE 43
      el(v, a, b) == t[a] = sg(v) /\ PlainEq(v, SubSeq(t, a + 1, b))
      z == Len(t) - Len(c)
  IN  /\ Len(S) = 3 /\ S[1] = 1 /\ z > S[3] /\ SubSeq(t, z + 1, Len(t)) = c
      /\ el(e.lat, S[1], S[2] - 1) /\ el(e.lon, S[2], S[3] - 1) /\ el(e.alt, S[3], z)

HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE c - 55
HexOK(e) ==  \* a minus sign counts as one of the places
  LET d == IF e.neg = 1 THEN Tail(e.r) ELSE e.r
      x == FoldLeft(LAMBDA a, c : AddNat(MulSmall(a, 16), NatDigits(HexVal(c))), <<>>, d)
      lead == \A i \in DOMAIN d : d[i] \in HexDigits
  IN  /\ e.r # <<>> /\ (e.neg = 1 => e.r[1] = 45)
      /\ d # <<>> /\ lead /\ StripLead(x) = StripLead(e.n) /\ Len(e.r) >= e.w
      /\ (Len(e.r) > e.w /\ Len(d) > 1 => d[1] # 48)

PartsVerdict(e) ==
  LET p == Parts(e.msg) IN
  IF ~p.ok THEN Tag(e.kind = "NMEAMessageError", "parts:kind:" \o e.kind)
  ELSE IF e.kind # "ok" THEN {"parts:kind:" \o e.kind}
  ELSE Tag(e.content = p.content, "parts:content") \cup Tag(e.talker = p.talker, "parts:talker")
       \cup Tag(e.id = p.id, "parts:msgid") \cup Tag(e.pl = p.payload, "parts:payload") \cup Tag(e.ck = p.cksum, "parts:checksum")

DescOf(id) == IF id \in StdIds THEN DATA.ids[id] ELSE IF id \in PropIds THEN DATA.idsprop[id] ELSE "Unknown msgID " \o id

Utc2Verdict(e) ==
  LET u == Inst(e.a)
      w == ToGnss(u, e.g)
  IN  IF e.kind # "ok" THEN {"utc2:kind:" \o e.kind}
      ELSE Tag(e.wno = (IF e.mod THEN w.w % Rollover(e.g) ELSE w.w), "utc2:wno")
           \cup Tag(e.tow = w.tow, "utc2:tow") \cup Tag(e.tow >= 0 /\ e.tow < WEEKMS, "utc2:towrange")
           \cup Tag(e.ls = Offset(u.d, e.g), "utc2:ls")

\* wnotow2utc without rollover search; ls = 99 when it is to be derived
WnotowVerdict(e) ==
  IF e.kind # "ok" THEN {"wnotow:kind:" \o e.kind}
  ELSE LET w == IF e.mod THEN e.wno % Rollover(e.g) ELSE e.wno
           t == e.tow % WEEKMS
           r == Inst(e.r)
           U == ToUtcSet(w, t, e.g)
           exact == e.r[7] % 1000 = 0
       IN IF ~e.roll
          THEN Tag(exact, "wnotow:resolution")
               \cup (IF e.ls # 99 THEN Tag(r = Minus(Label(w, t, e.g), IF e.g = "R" THEN 0 ELSE e.ls), "wnotow:fixedls")
                     ELSE IF U = {} THEN {} ELSE Tag(r \in U, "wnotow:value"))
          ELSE LET R  == Rollover(e.g)
                   k  == (r.d - Label(w, t, e.g).d + 7) \div (7 * R)       \* the candidate chosen
                   Cand(x) == IF e.ls # 99 THEN {Minus(Label(w + x * R, t, e.g), IF e.g = "R" THEN 0 ELSE e.ls)}
                              ELSE ToUtcSet(w + x * R, t, e.g)
               IN  \* now: [t0, t1] around the call
                   Tag(k >= 0 /\ (Cand(k) = {} \/ r \in Cand(k)), "wnotow:rollvalue")
                   \cup Tag(\A u \in Cand(k + 1) : ~InstLE(u, Inst(e.t0)), "wnotow:rolltooearly")
                   \cup Tag(k = 0 \/ InstLE(r, Inst(e.t1)), "wnotow:rolltoolate")
\* UTC -> (wno, tow) -> UTC
TimeRtVerdict(e) ==
  IF e.kind # "ok" THEN {"timert:kind:" \o e.kind}
  ELSE Tag((Inst(e.r) = Inst(e.a)
            \/ (Ambiguous(Inst(e.a).d) /\ LET w == ToGnss(Inst(e.a), e.g) IN Inst(e.r) \in ToUtcSet(w.w, w.tow, e.g)))
           /\ e.r[7] = (e.a[7] \div 1000) * 1000, "timert:value")

HelperVerdict(e) ==
  CASE e.op = "ddd2dmm" -> Tag(PosTextOK(e.v, e.r, e.att, e.hp), "ddd2dmm:" \o e.att)
    [] e.op = "dddrt"   -> Tag(e.r.t = "f" /\ Within([g |-> e.v.g, e |-> e.v.e], [g |-> e.r.g, e |-> e.r.e],
                               IF e.hp THEN [g |-> <<9>>, e |-> -10] ELSE [g |-> <<8, 4>>, e |-> -9]) /\ (IsZero(e.r) \/ e.r.n = 0), "dddrt")
    [] e.op = "empty"   -> Tag(e.r.t = "s" /\ e.r.s = <<>>, "empty:" \o e.what)
    [] e.op = "dmm2ddd" -> Tag(ValueIs(PosDecode(e.s), e.r, 0), "dmm2ddd")
    [] e.op = "date2utc" -> Tag(ValueIs(DateDecode(e.s, e.form), e.r, 0), "date2utc:" \o e.form)
    [] e.op = "date2str" -> Tag(e.r = DateText(e.a, e.form), "date2str:" \o e.form)
    [] e.op = "time2utc" -> Tag(ValueIs(TimeDecode(e.s), e.r, 0), "time2utc")
    [] e.op = "time2str" -> Tag(e.r = TimeText(e.a), "time2str")
    [] e.op = "fieldin"  -> LET d == Decoded(e.ty, e.s) IN
                            IF e.kind # "ok" THEN Tag(d.st \in {"err", "maybe"}, "fieldin:kind:" \o e.ty)
                            ELSE Tag(d.st # "err" /\ ValueIs(d, e.r, 0), "fieldin:" \o e.ty)
    [] e.op = "fieldout" -> Tag(e.kind = "ok" /\ TextOK(e.ty, e.v, e.r, e.hp), "fieldout:" \o e.ty)
    [] e.op = "nominal" -> Tag(e.kind = "ok" /\ NominalOK(e.ty, e.v, e.mode) /\ InWindow(e.v, e.t0, e.t1), "nominal:" \o e.ty)
    [] e.op = "cksum"   -> Tag(e.r = ChecksumOf(e.s), "calc_checksum")
    [] e.op = "gencksum" -> Tag(e.r = ChecksumOf(e.s), "generate_checksum")
    [] e.op = "serck"   -> LET p == Parts(e.ser) IN Tag(p.ok /\ p.cksum = ChecksumOf(p.content), "serialized checksum")
    [] e.op = "parts"   -> PartsVerdict(e)
    [] e.op = "hex2str" -> Tag(HexOK(e), "hex2str")
    [] e.op = "msgdesc" -> Tag(ToS(e.r) = DescOf(ToS(e.id)), "msgdesc")
    [] e.op = "leap"    -> Tag(e.kind = "ok" /\ e.r = LeapOff(DayNo(e.a[1], e.a[2], e.a[3]), e.g), "leapsecond")
    [] e.op = "utc2wnotow" -> Utc2Verdict(e)
    [] e.op = "wnotow2utc" -> WnotowVerdict(e)
    [] e.op = "timert"  -> TimeRtVerdict(e)
    [] e.op = "deg2dmm" -> Tag(DmmOK(e.v, e.att, e.r), "deg2dmm:" \o e.att)
    [] e.op = "deg2dms" -> Tag(DmsOK(e.v, e.att, e.r), "deg2dms:" \o e.att)
    [] e.op = "dms2deg" -> Tag(DmsDegOK(e), "dms2deg")
    [] e.op = "dmsrt"   -> Tag(IsNum(e.r) /\ Within([g |-> e.v.g, e |-> e.v.e], [g |-> e.r.g, e |-> e.r.e], [g |-> <<5, 2>>, e |-> -9])
                               /\ (IsZero(e.r) \/ e.r.n = e.v.n), "dmsrt")
    [] e.op = "iso6709" -> Tag(IsoOK(e), "iso6709")
    [] e.op = "kind"    -> Tag(e.kind \in ToSet(e.allowed), "kind:" \o e.what \o ":" \o e.kind)
    [] OTHER -> GeoVerdict(e)
=============================================================================
