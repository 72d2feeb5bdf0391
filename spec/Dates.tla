------------------------------- MODULE Dates -------------------------------
(* Excel serial dates.  Day 0 is 1899-12-31, day 60 is the 29th of February  *)
(* 1900 that never was.                                                      *)
EXTENDS VBase

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
\* Excel's calendar.
MonthDays(y, m) == CASE m = 2 -> IF Leap(y) \/ y = 1900 THEN 29 ELSE 28
                     [] m \in {4, 6, 9, 11} -> 30
                     [] OTHER -> 31
ValidDate(y, m, d) == /\ y \in 1899 .. 9999 /\ m \in 1 .. 12 /\ d >= 1 /\ d <= MonthDays(y, m)
                      /\ (y = 1899 => m = 12 /\ d = 31)
\* Leap days of Excel's calendar in the years before y, from 1900.
LeapsBefore(y) == LET n(k) == (y - 1) \div k IN (n(4) - n(100) + n(400)) - (1899 \div 4 - 18 + 4) + (IF y > 1900 THEN 1 ELSE 0)
RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 0 ELSE MonthDays(y, m - 1) + DaysBefore(y, m - 1)
Serial(y, m, d) == IF y = 1899 THEN 0 ELSE (y - 1900) * 365 + LeapsBefore(y) + DaysBefore(y, m) + d

\* A day and a number of milliseconds as text.
Stamp(day, ms) == S(day) \o ":" \o S(ms)
DAYMS == 86400000
\* Hours are not limited; minutes and seconds are.
TimeMs(h, mi, ms) == (h % 24) * 3600000 + mi * 60000 + ms
At(day, h, mi, ms) == LET t == TimeMs(h, mi, ms) IN Stamp(day + h \div 24 + t \div DAYMS, t % DAYMS)
BadTime(o) == o.mi > 60 \/ o.ms < 0 \/ o.ms > 59999

DateOps == {"d_ymd", "d_hms", "d_ymdhms", "d_parse", "d_ts", "d_serial", "d_year", "d_chrono"}
\* Every operation carries the parts its argument denotes: kind "date",
\* "time", "both", or "bad" for text without a date or a time.
DateErr(o) ==
    CASE o.op = "d_year" -> ""
      [] o.op = "d_serial" -> IF o.in THEN "" ELSE "DateTimeRangeError"
      [] o.kind = "bad" -> "DateTimeParseError"
      [] o.kind \in {"date", "both"} /\ ~ValidDate(o.y, o.m, o.d) -> "DateTimeRangeError"
      [] o.kind \in {"time", "both"} /\ BadTime(o) -> "DateTimeRangeError"
      [] OTHER -> ""
DateVal(o) == CASE o.op = "d_serial" -> o.stamp
                [] o.kind = "date" -> At(Serial(o.y, o.m, o.d), 0, 0, 0)
                [] o.kind = "time" -> At(0, o.h, o.mi, o.ms)
                [] OTHER -> At(Serial(o.y, o.m, o.d), o.h, o.mi, o.ms)
\* d_year: each day 1 .. 31 of each month 1 .. 12 by parts, by text, by Unix
\* timestamp and by the external date library.
YearVals(o) ==
    {<<"val", S((m - 1) * 31 + d), IF ValidDate(o.y, m, d) THEN S(Serial(o.y, m, d)) ELSE "err">> : m \in 1 .. 12, d \in 1 .. 31}
DateRes(o) == IF DateErr(o) = "" THEN "ok" ELSE "err:" \o DateErr(o)
DateExpect(o) == IF DateErr(o) # "" THEN {} ELSE IF o.op = "d_year" THEN YearVals(o) ELSE {<<"val", DateVal(o)>>}
=============================================================================
