------------------------------ MODULE GnssTime ------------------------------
(***************************************************************************)
(* GNSS system time.  An instant is [d, ms]: days since 0001-01-01 and     *)
(* milliseconds of the day (UTC or system time, both without leap second   *)
(* labels).  Systems: G GPS, E Galileo, C BeiDou, J QZSS, I NavIC,         *)
(* R GLONASS (kept on UTC).                                                *)
(***************************************************************************)
EXTENDS Calendar, FiniteSets
Systems == {"G", "E", "C", "J", "I", "R"}

\* UTC dates from which TAI-UTC has the given value (IERS Bulletin C)
LeapDates == <<
  <<1972, 1, 1, 10>>, <<1972, 7, 1, 11>>, <<1973, 1, 1, 12>>, <<1974, 1, 1, 13>>, <<1975, 1, 1, 14>>,
  <<1976, 1, 1, 15>>, <<1977, 1, 1, 16>>, <<1978, 1, 1, 17>>, <<1979, 1, 1, 18>>, <<1980, 1, 1, 19>>,
  <<1981, 7, 1, 20>>, <<1982, 7, 1, 21>>, <<1983, 7, 1, 22>>, <<1985, 7, 1, 23>>, <<1988, 1, 1, 24>>,
  <<1990, 1, 1, 25>>, <<1991, 1, 1, 26>>, <<1992, 7, 1, 27>>, <<1993, 7, 1, 28>>, <<1994, 7, 1, 29>>,
  <<1996, 1, 1, 30>>, <<1997, 7, 1, 31>>, <<1999, 1, 1, 32>>, <<2006, 1, 1, 33>>, <<2009, 1, 1, 34>>,
  <<2012, 7, 1, 35>>, <<2015, 7, 1, 36>>, <<2017, 1, 1, 37>> >>
LeapDays == [i \in DOMAIN LeapDates |-> DayNo(LeapDates[i][1], LeapDates[i][2], LeapDates[i][3])]
TaiUtc(day) == LET K == {i \in DOMAIN LeapDates : LeapDays[i] <= day}
               IN  IF K = {} THEN 0 ELSE LeapDates[CHOOSE i \in K : \A j \in K : i >= j][4]

Epoch(g) == CASE g = "C" -> DayNo(2006, 1, 1) [] g \in {"E", "I"} -> DayNo(1999, 8, 22) [] OTHER -> DayNo(1980, 1, 6)
Rollover(g) == CASE g = "C" -> 8192 [] g = "E" -> 4096 [] OTHER -> 1024
\* leap seconds between system time g and UTC on a UTC day (not for "R")
\* (negative before the epoch; the table begins in 1972, nothing is applied before)
LeapOff(day, g) == IF day < LeapDays[1] THEN 0 ELSE TaiUtc(day) - TaiUtc(Epoch(IF g = "C" THEN "C" ELSE "G"))
Offset(day, g)  == IF g = "R" THEN 0 ELSE LeapOff(day, g)

DAYMS == 86400000
WEEKMS == 604800000
\* UTC instant -> continuous week, ms of week
ToGnss(u, g) ==
  LET x  == u.ms + 1000 * Offset(u.d, g)
      dd == u.d - Epoch(g) + (x \div DAYMS)
  IN  [w |-> dd \div 7, tow |-> (dd % 7) * DAYMS + (x % DAYMS)]
\* system-time label of (week, tow)
Label(w, tow, g) == [d |-> Epoch(g) + 7 * w + tow \div DAYMS, ms |-> tow % DAYMS]
Minus(u, sec) == LET x == u.ms - 1000 * sec IN [d |-> u.d + (x \div DAYMS), ms |-> x % DAYMS]
\* UTC candidates of a system-time label: those that map back to it
ToUtcSet(w, tow, g) ==
  LET L == Label(w, tow, g)
  IN  {u \in {Minus(L, k) : k \in -24..40} : ToGnss(u, g) = [w |-> w, tow |-> tow]}
\* where the table begins the label jumps back: two instants may share one
Ambiguous(d) == d \in {LeapDays[1] - 1, LeapDays[1]}
=============================================================================
