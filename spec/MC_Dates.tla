----------------------------- MODULE MC_Dates ------------------------------
(* The calendar as a transition system: each step goes to the next day.      *)
(* Serial must count the days.                                               *)
EXTENDS Dates
CONSTANTS First, Last        \* years
VARIABLES y, m, d, n
cvars == <<y, m, d, n>>
CInit == y \in First .. Last /\ m = 1 /\ d = 1 /\ n = Serial(y, 1, 1)
CNext == /\ n' = n + 1
         /\ IF d < MonthDays(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
            ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ y' = y
            ELSE y < Last /\ y' = y + 1 /\ m' = 1 /\ d' = 1
CSpec == CInit /\ [][CNext]_cvars
CountsDays == n = Serial(y, m, d) /\ ValidDate(y, m, d)
Anchors == /\ (<<y, m, d>> = <<1900, 1, 1>> => n = 1)
           /\ (<<y, m, d>> = <<1900, 2, 29>> => n = 60)
           /\ (<<y, m, d>> = <<1904, 1, 1>> => n = 1462)
           /\ (<<y, m, d>> = <<2000, 1, 1>> => n = 36526)
           /\ (<<y, m, d>> = <<9999, 12, 31>> => n = 2958465)
=============================================================================
