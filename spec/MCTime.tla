------------------------------- MODULE MCTime -------------------------------
(***************************************************************************)
(* UTC and GNSS time stepping through the neighbourhood of every interesting *)
(* instant (leap seconds, epochs, week and rollover boundaries, today's era), *)
(* with steps of a few sizes; the expected conversions are printed.          *)
(***************************************************************************)
EXTENDS GnssTime, Json, IOUtils, TLC, Sequences
CFG == JsonDeserialize(IOEnv.MC)
\* starting instants: [d, ms]
Anchors(g) == {[d |-> LeapDays[i], ms |-> 0] : i \in {j \in DOMAIN LeapDays : j > 1}}
              \cup {[d |-> Epoch(g), ms |-> 0]}
              \cup {[d |-> Epoch(g) + 7 * k, ms |-> 0] : k \in {1, 2, 1023, 1024, 1025, 2047, 2048, 2230, 4095, 4096, 8191, 8192, 8193} \cup {CFG.week}}
              \cup {[d |-> DayNo(2024, 2, 29), ms |-> 43200000], [d |-> DayNo(2025, 3, 1), ms |-> 86399999]}
\* offsets from an anchor, in ms
Offs == {-20000, -19000, -18001, -18000, -17000, -14000, -13000, -1001, -1000, -999, -500, -1, 0, 1, 7, 999, 1000, 12345, 43200000, 86399999, 259200000}
Shift(u, ms) == LET x == u.ms + ms IN [d |-> u.d + (x \div DAYMS), ms |-> x % DAYMS]
VARIABLES g, u, n
vars == <<g, u, n>>
Init == /\ g \in Systems
        /\ u \in {Shift(a, o) : a \in Anchors(g), o \in Offs}
        /\ n = 0
Steps == {1, 1000}
Tick(ms) == n < CFG.ticks /\ u' = Shift(u, ms) /\ n' = n + 1 /\ g' = g
Next == \E s \in Steps : Tick(s)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
W == ToGnss(u, g)
InRange == W.tow \in 0..(WEEKMS - 1) /\ (u.d >= Epoch(g) => W.w >= 0)
\* converting back gives the same instant
RoundTrip == u \in ToUtcSet(W.w, W.tow, g) /\ Cardinality(ToUtcSet(W.w, W.tow, g)) = 1
\* leap seconds are non-decreasing, by at most one a step, and only at midnight
LeapStep == [][Offset(u'.d, g) \in {Offset(u.d, g), Offset(u.d, g) + 1}]_vars
\* the week advances by one exactly when tow wraps
WeekStep == [][LET A == ToGnss(u, g)  B == ToGnss(u', g) IN
               IF B.tow < A.tow THEN B.w = A.w + 1 ELSE B.w = A.w]_vars
AtEpoch == (u = [d |-> Epoch(g), ms |-> 0]) => (W.w = 0 /\ W.tow = 1000 * Offset(u.d, g))
Emit == PrintT("@@" \o ToString(<<g, u.d, u.ms, W.w, W.tow, Offset(u.d, g)>>))
=============================================================================
