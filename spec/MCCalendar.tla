----------------------------- MODULE MCCalendar -----------------------------
(* Every date of the two-digit-year range, and every second of a day, with   *)
(* the text each must have; texts decode to the date or time they came from. *)
EXTENDS Fields, Json, IOUtils
CFG == JsonDeserialize(IOEnv.MC)
VARIABLES kind, a
vars == <<kind, a>>
Init == \/ kind = "date" /\ a = <<1969, 1, 1>>
        \/ kind = "time" /\ a \in {<<h, 0, 0, c>> : h \in 0..23, c \in ToSet(CFG.us)}
NextDay == IF ValidDate(a[1], a[2], a[3] + 1) THEN <<a[1], a[2], a[3] + 1>>
           ELSE IF a[2] < 12 THEN <<a[1], a[2] + 1, 1>> ELSE <<a[1] + 1, 1, 1>>
Day == kind = "date" /\ a # <<2068, 12, 31>> /\ a' = NextDay /\ kind' = kind
Second == kind = "time" /\ (a[2] # 59 \/ a[3] # 59) /\ kind' = kind
          /\ a' = IF a[3] < 59 THEN <<a[1], a[2], a[3] + 1, a[4]>> ELSE <<a[1], a[2] + 1, 0, a[4]>>
Next == Day \/ Second
Spec == Init /\ [][Next]_vars
Back == IF kind = "date" THEN \A f \in DateTypes : LET d == DateDecode(DateText(a, f), f) IN d.st = "ok" /\ d.k = "d" /\ d.a = a
        ELSE LET d == TimeDecode(TimeText(a)) IN d.st = "ok" /\ d.k = "t" /\ d.a = <<a[1], a[2], a[3], (a[4] \div 10000) * 10000>>
\* consecutive days have consecutive numbers
Counts == [][kind = "date" => DayNo(a'[1], a'[2], a'[3]) = DayNo(a[1], a[2], a[3]) + 1]_vars
Emit == IF kind = "date" THEN PrintT("@@d|" \o ToString(a) \o "|" \o ToS(DateText(a, "DT")) \o "|" \o ToS(DateText(a, "DTL")) \o "|" \o ToS(DateText(a, "DM")))
        ELSE PrintT("@@t|" \o ToString(a) \o "|" \o ToS(TimeText(a)))
=============================================================================
