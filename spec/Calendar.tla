------------------------------ MODULE Calendar ------------------------------
(* Proleptic Gregorian calendar on 32-bit integers. *)
EXTENDS Integers, Sequences
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
DaysIn(y, m) == IF m = 2 /\ Leap(y) THEN 29 ELSE MonthDays[m]
ValidDate(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)
\* days since 0001-01-01 (= 0)
Cumul == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DayNo(y, m, d) == LET p == y - 1 IN
  365 * p + p \div 4 - p \div 100 + p \div 400 + Cumul[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1
=============================================================================
