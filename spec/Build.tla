-------------------------------- MODULE Build --------------------------------
(***************************************************************************)
(* Building a message from keyword attributes, and the round trip back     *)
(* through parse().  Keywords are a sequence of [n |-> name, v |-> value,  *)
(* x |-> text of str(value)].                                              *)
(***************************************************************************)
EXTENDS Message

KwNames(kw)   == {kw[i].n : i \in DOMAIN kw}
KwIndex(kw, n) == CHOOSE i \in DOMAIN kw : kw[i].n = n

\* _NN(_NN)* at the end of a keyword: first index, else 0
SuffixNum(n) ==
  LET f == Split(T(n), 95)
      K == {k \in 2..Len(f) : \A j \in k..Len(f) : f[j] # <<>> /\ AllDigits(f[j])}
  IN  IF K = {} THEN 0 ELSE ToNat(f[CHOOSE k \in K : \A j \in K : k <= j])
GroupSize(kw) == LET S == {0} \cup {SuffixNum(kw[i].n) : i \in DOMAIN kw}
                 IN  CHOOSE m \in S : \A x \in S : x <= m

B0 == [out |-> <<>>, err |-> FALSE]
SmallNat(v) == IF v.n = 1 \/ IsZero(v) THEN 0
               ELSE IF Len(v.g) + v.e > 6 THEN 1000000
               ELSE ToNat([k \in 1..Len(v.g) |-> v.g[k] + 48] \o [k \in 1..v.e |-> 48])

\* value of a single attribute: [src, v] with src "kw", "nom" or "hemi"
BuildVal(el, name, kw, out) ==
  LET base == IF el.t = "LND" THEN "lon" ELSE IF el.t = "LAD" THEN "lat" ELSE ""
      b    == IF base = "" THEN 0 ELSE LastNamed(out, base)
  IN  IF b # 0 THEN
        LET o   == out[b]
            neg == o.src = "kw" /\ IsNum(o.v) /\ o.v.n = 1 /\ ~IsZero(o.v)
        IN  [src |-> "hemi", v |-> [t |-> "s", s |-> IF el.t = "LND" THEN (IF neg THEN <<87>> ELSE <<69>>)
                                                   ELSE (IF neg THEN <<83>> ELSE <<78>>)]]
      ELSE IF name \in KwNames(kw) THEN [src |-> "kw", v |-> kw[KwIndex(kw, name)].v]
      ELSE [src |-> "nom", v |-> [t |-> "o"]]

RECURSIVE BDef(_, _, _, _, _), BRep(_, _, _, _, _, _, _)
BEl(el, kw, gs, ix, st) ==
  IF st.err THEN st
  ELSE IF el.k = "a" THEN
    LET name == el.n \o Suffix(ix)
        b    == BuildVal(el, name, kw, st.out)
    IN  [st EXCEPT !.out = Append(@, [n |-> name, t |-> el.t, src |-> b.src, v |-> b.v])]
  ELSE
    LET i == LastNamed(st.out, el.m)
        c == CASE el.c = "fix" -> el.i
               [] el.c = "ind" -> gs
               [] i = 0 -> -1
               [] st.out[i].src = "nom" -> IF st.out[i].t = "IN" THEN 0 ELSE -1
               [] st.out[i].v.t = "i" -> SmallNat(st.out[i].v)
               [] OTHER -> -1
    IN  IF c = -1 THEN [st EXCEPT !.err = TRUE] ELSE BRep(el, kw, gs, ix, st, 1, c)
BRep(el, kw, gs, ix, st, i, c) ==
  IF i > c \/ st.err THEN st
  ELSE BRep(el, kw, gs, ix, BDef(el.d, kw, gs, Append(ix, i), st), i + 1, c)
BDef(d, kw, gs, ix, st) == FoldLeft(LAMBDA s, el : BEl(el, kw, gs, ix, s), st, d)

BuildOutcome(talker, id, mode, val, ud, kw) ==
  LET fail(k, why) == [kind |-> k, why |-> why, out |-> <<>>, src |-> "", def |-> FALSE]
      src == Source(ToS(id), ud)
      cx  == [id |-> id, mode |-> mode, ud |-> ud, py |-> FALSE, pl |-> <<>>, kw |-> KwNames(kw),
              kv |-> [n \in KwNames(kw) |-> kw[KwIndex(kw, n)].x],
              zero |-> [n \in KwNames(kw) |-> LET v == kw[KwIndex(kw, n)].v IN IsNum(v) /\ IsZero(v)]]
  IN
  IF mode \notin Modes THEN fail("NMEAMessageError", "mode")
  ELSE IF ChecksId(val) /\ ToS(talker) \notin Talkers THEN fail("NMEAMessageError", "talker")
  ELSE IF ChecksId(val) /\ src = "UNKN" THEN fail("NMEAMessageError", "id")
  ELSE LET s == Select(cx) IN
    CASE s.st = "nokey" -> fail("NMEAMessageError", "nomsgid")
      [] s.st = "any"   -> fail("any", "any")
      [] s.st = "none"  -> IF ChecksId(val) THEN fail("NMEAMessageError", "nodef")
                           ELSE [kind |-> "msg", why |-> "nodef", out |-> <<>>, src |-> src, def |-> FALSE]
      [] OTHER ->
         LET b == BDef(s.d, kw, GroupSize(kw), <<>>, B0) IN
         IF b.err THEN fail("NMEATypeError", "count")
         ELSE [kind |-> "msg", why |-> "", out |-> b.out, src |-> src, def |-> TRUE]

-----------------------------------------------------------------------------
BuiltAttrVerdict(o, e, m) ==
  LET want == {o.out[k].n : k \in DOMAIN o.out}
      got  == {m.at[k].n : k \in DOMAIN m.at}
  IN  (IF want = got THEN {} ELSE {"b:names"})
      \cup UNION { LET a == o.out[k] IN
                   IF a.n \notin got THEN {}
                   ELSE LET v == AttrVal(m, a.n).v IN
                        CASE a.src = "nom"  -> Tag(NominalOK(a.t, v, e.mode) /\ InWindow(v, e.t0, e.t1), "b:nominal:" \o a.t)
                          [] a.src = "hemi" -> Tag(v = a.v, "b:hemi:" \o a.n)
                          [] OTHER          -> Tag(v = a.v, "b:value:" \o a.t \o ":" \o a.n)
                   : k \in DOMAIN o.out }
BuiltPayloadVerdict(o, e, m) ==
  IF Len(m.pl) # Len(o.out) THEN {"b:fieldcount"}
  ELSE UNION { LET a == o.out[k]
                   v == IF a.src = "nom" /\ a.n \in {m.at[j].n : j \in DOMAIN m.at} THEN AttrVal(m, a.n).v ELSE a.v
               IN  Tag(v.t # "o" /\ TextOK(a.t, v, m.pl[k], e.hp),
                       "b:" \o (IF a.src = "hemi" THEN "hemi" ELSE "field") \o ":" \o a.t \o ":" \o a.n)
               : k \in DOMAIN o.out }

(* Round trip of one attribute: v set when building, w found after parsing. *)
RoundTrips(ty, n, v, w, hp, signed) ==
  CASE ty \in TextTypes -> v.t = "s" => (w.t = "s" /\ w.s = v.s)
    [] ty \in {"DE", "IN"} -> /\ IsNum(v) => IsNum(w) /\ (Len(v.g) > 15 \/ (IF signed THEN AbsEq(v, w) ELSE DecEq(v, w)))
                              /\ (v.t = "s" /\ v.s = <<>>) => (w.t = "s" /\ w.s = <<>>)
    [] ty \in PosTypes -> /\ IsNum(v) => /\ w.t = "f"
                                         /\ Within([g |-> v.g, e |-> v.e], [g |-> w.g, e |-> w.e],
                                                   \* half a unit of minutes, in degrees
                                                   IF hp THEN [g |-> <<9>>, e |-> -10] ELSE [g |-> <<8, 4>>, e |-> -9])
                                         /\ (signed => IsZero(w) \/ w.n = v.n)
                          /\ v.t = "s" => (w.t = "s" /\ w.s = <<>>)
    [] ty = "TM" -> v.t = "t" => (w.t = "t" /\ w.a = <<v.a[1], v.a[2], v.a[3], (v.a[4] \div 10000) * 10000>>)
    [] ty \in DateTypes -> (v.t = "d" /\ (ty = "DTL" \/ v.a[1] \in 1969..2068)) => (w.t = "d" /\ w.a = v.a)
    [] OTHER -> TRUE
HasDir(out, n) == n \in {"lat", "lon"} /\ \E j \in DOMAIN out : out[j].t = DirType[n]
RoundTripVerdict(o, e, m, back) ==
  IF back.kind # "msg" THEN {"rt:kind:" \o back.kind}
  ELSE LET got == {back.m.at[k].n : k \in DOMAIN back.m.at} IN
    (IF got = {o.out[k].n : k \in DOMAIN o.out} THEN {} ELSE {"rt:names"})
    \cup UNION { LET a == o.out[k] IN
                 IF a.n \notin got \/ a.n \notin {m.at[j].n : j \in DOMAIN m.at} THEN {}
                 ELSE Tag(RoundTrips(a.t, a.n, AttrVal(m, a.n).v, AttrVal(back.m, a.n).v, e.hp, HasDir(o.out, a.n)),
                          "rt:" \o a.t \o ":" \o a.n)
                 : k \in DOMAIN o.out }

Content(talker, id, pl) == talker \o id \o FoldLeft(LAMBDA a, f : a \o <<COMMA>> \o f, <<>>, pl)

BuildVerdict(e) ==
  LET o == BuildOutcome(e.talker, e.id, e.mode, e.val, e.udt, e.kw) IN
  IF o.kind = "any" THEN {}
  ELSE IF e.res.kind # o.kind THEN {"b:kind:" \o o.why \o ":" \o e.res.kind}
  ELSE IF o.kind # "msg" THEN {}
  ELSE
    LET m  == e.res.m
        c  == Content(e.talker, e.id, m.pl)
        ck == ChecksumOf(c)
    IN  Tag(m.talker = e.talker, "b:talker") \cup Tag(m.id = e.id, "b:msgID") \cup Tag(m.mode = e.mode, "b:mode")
        \cup Tag(m.ck = ck, "b:checksum")
        \cup Tag(m.ser = Utf8Encode(<<DOLLAR>> \o c \o <<STAR>> \o ck \o <<CR, LF>>), "b:serialize")
        \cup BuiltAttrVerdict(o, e, m)
        \cup BuiltPayloadVerdict(o, e, m)
        \cup (IF {o.out[k].n : k \in DOMAIN o.out} = {m.at[k].n : k \in DOMAIN m.at}
              THEN Tag(m.str = StrOf(m, [src |-> o.src], [k \in DOMAIN o.out |-> o.out[k].n]), "b:str") ELSE {})
        \cup (IF e.rt THEN RoundTripVerdict(o, e, m, e.back) ELSE {})
        \* the parse back is itself judged
        \cup (IF e.rt /\ e.back.kind \in {"msg", "none", "NMEAParseError", "NMEATypeError"}
              THEN {"back:" \o c1 : c1 \in ParseVerdict(m.ser, e.mode, e.bval, e.udt, e.back)} ELSE {})
=============================================================================
