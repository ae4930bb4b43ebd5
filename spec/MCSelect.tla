------------------------------ MODULE MCSelect ------------------------------
(***************************************************************************)
(* Selection of definitions among variants: every mode, number of fields    *)
(* and kind of first field; every subset of the discriminating keywords.    *)
(***************************************************************************)
EXTENDS Build
VIds == {"QTMCFGUART", "QTMCFGMSGRATE", "QTMCFGPPS", "QTMCFGSAT", "QTMCFGGEOFENCE", "QTMSN", "STMDRSENMSG", "QTMCFGODO", "QTMVERNO"}
Firsts == {"OK", "ERROR", "W", "R", "5", "26", "30", "31", "34", "X", "", "OK1", "ERRORS", "ok", "ERR", "NOK"}
KwSets == [QTMCFGUART |-> {"portid", "baudrate", "databit"}, QTMCFGMSGRATE |-> {"porttype", "msgver"}, QTMCFGPPS |-> {"enable"},
           QTMCFGSAT |-> {"maskhigh"}, QTMCFGGEOFENCE |-> {"lon1", "geofencemode"}, QTMSN |-> {"status"}, STMDRSENMSG |-> {"msgtype"},
           QTMCFGODO |-> {"status"}, QTMVERNO |-> {"status"}]
NoUd == [x \in {} |-> <<>>]
VARIABLES id, mode, how, first, len, kws, res
vars == <<id, mode, how, first, len, kws, res>>
Fields == [k \in 1..len |-> IF k = 1 THEN T(first) ELSE T(ToString(k))]
\* value of a discriminating keyword: enable / geofencemode may be zero
Init == /\ id \in VIds /\ mode \in Modes
        /\ \/ how = "fields" /\ len \in 0..16 /\ first \in Firsts /\ (len = 0 => first = "") /\ kws = {}
           \/ how = "keywords" /\ len = 0 /\ kws \in SUBSET KwSets[id] /\ first \in {"zero", "26", "30"}
        /\ res = "pending"
CxOf == IF how = "fields"
        THEN [id |-> T(id), mode |-> mode, ud |-> NoUd, py |-> TRUE, pl |-> Fields, kw |-> {}, kv |-> <<>>, zero |-> <<>>]
        ELSE [id |-> T(id), mode |-> mode, ud |-> NoUd, py |-> FALSE, pl |-> <<>>, kw |-> kws,
              kv |-> [n \in kws |-> T(IF first = "zero" THEN "0" ELSE first)], zero |-> [n \in kws |-> first = "zero"]]
KeyOf(cx) == IF id = "STMDRSENMSG" THEN id ELSE LET v == Variant(cx, id) IN IF cx.py /\ IsQtm(v) THEN QtmAck(cx, v) ELSE v
Choose == /\ res = "pending"
          /\ LET s == Select(CxOf) IN res' = IF s.st = "def" THEN "def" ELSE "none"
          /\ UNCHANGED <<id, mode, how, first, len, kws>>
Next == Choose
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* an acknowledgement is never taken for data, nor data for an acknowledgement
Acks == (res = "def" /\ how = "fields" /\ IsQtm(id)) =>
          LET k == KeyOf(CxOf) IN
          (k \in {"QTMACK", "QTMNAK"}) <=> (mode = GET /\ ((first = "OK" /\ len = 1) \/ (first = "ERROR" /\ len = 2)))
\* selection by count: a variant is selected only with its own number of fields
Width(d) == Cardinality(DOMAIN d)
Suffixed == {"_CURRBAUD", "_BAUD", "_CURR", "_NOVER", "_INTFNOVER", "_INTF", "_DIS", "_LOW", "_POLY"}
Fits == (res = "def" /\ how = "fields") =>
          LET k == KeyOf(CxOf) IN
          (\E x \in Suffixed : k = id \o x) => len = Width(Select(CxOf).d)
\* every variant defined in the tables is selected by some shape (checked at the constant level)
AllKeys == {<<m, k>> : m \in Modes, k \in UNION {DOMAIN Table("PROP", x) : x \in Modes}}
VariantKeys == {q \in AllKeys : q[2] \in DOMAIN Table("PROP", q[1]) /\ \E v \in VIds, x \in Suffixed \cup {"_ALT"} : q[2] = v \o x}
Reached(q) == \E v \in VIds, n \in 0..16, f \in {"W", "R", "5", "OK", "X"} :
                 LET cx == [id |-> T(v), mode |-> q[1], ud |-> NoUd, py |-> TRUE, pl |-> [k \in 1..n |-> IF k = 1 THEN T(f) ELSE T("2")],
                            kw |-> {}, kv |-> <<>>, zero |-> <<>>]
                 IN  Variant(cx, v) = q[2]
ASSUME \A q \in VariantKeys : Reached(q)
Emit == res # "pending" =>
   PrintT("@@" \o ToJson([id |-> id, mode |-> mode, how |-> how, pl |-> [k \in 1..len |-> ToS(Fields[k])], kws |-> kws, first |-> first, res |-> res,
                          names |-> IF res = "def" THEN
                             (IF how = "fields" THEN [k \in DOMAIN Walk(Select(CxOf).d, Fields).out |-> Walk(Select(CxOf).d, Fields).out[k].n]
                              ELSE LET b == BDef(Select(CxOf).d, <<>>, 0, <<>>, B0).out IN [k \in DOMAIN b |-> b[k].n]) ELSE <<>>,
                          err |-> IF res = "def" /\ how = "fields" THEN Walk(Select(CxOf).d, Fields).err ELSE FALSE]))
=============================================================================
