------------------------------ MODULE MC_Modes ------------------------------
(* The same row ordered writes applied to a standard, a low memory and a     *)
(* constant memory worksheet: whatever the order within a row and whenever   *)
(* the workbook is saved, the three show the same.                           *)
EXTENDS Grid, Json

VARIABLES st, hist, front
vars == <<st, hist, front>>
SpecView == <<st, front, Len(hist)>>
CONSTANTS Depth
B == [b |-> "1"]
I == [i |-> "1"]
At(r, c, o) == o @@ [s |-> 0, r |-> r, c |-> c]
Alpha ==
    UNION {{ At(r, 0, [op |-> "num", v |-> "1.0"]),
             At(r, 1, [op |-> "str", v |-> "a", vt |-> "a", vlen |-> 1, hf |-> TRUE, f |-> B]),
             At(r, 0, [op |-> "rich", segs |-> <<[f |-> B, t |-> "p", tt |-> "p"], [f |-> I, t |-> "q", tt |-> "q"]>>]),
             At(r, 0, [op |-> "merge", r2 |-> r + 1, c2 |-> 1, v |-> "m", vt |-> "m", vlen |-> 1, hf |-> TRUE, f |-> I]),
             At(r, 1, [op |-> "array", r2 |-> r + 1, c2 |-> 1, v |-> "=2", ft |-> "2"]),
             At(r, 0, [op |-> "setf", hf |-> TRUE, f |-> I]),
             At(r, 1, [op |-> "clear"]),
             At(r, 0, [op |-> "url", url |-> "http://a", uc |-> <<"h", "t", "t", "p", ":", "/", "/", "a">>, utx |-> "", utn |-> 0, tipx |-> "", tipn |-> 0]),
             At(r, 1, [op |-> "formula", v |-> "=1+1", ft |-> "1+1"]),
             At(r, 0, [op |-> "rformat", hf |-> TRUE, f |-> B]),
             At(r, 0, [op |-> "rheight", v |-> "30.0", wd |-> "30.0", hpx |-> 40, zero |-> FALSE]) } : r \in 0 .. 2}
    \cup {[op |-> "save", how |-> "buffer"]}

Apply(s, o) == IF o.op = "save" THEN GridStep(s, o).st
               ELSE FoldL(LAMBDA a, k : GridStep(a, [o EXCEPT !.s = k]).st, s, <<0, 1, 2>>)
Init == /\ st = FoldL(LAMBDA a, o : GridStep(a, o).st, GridInit([id |-> ""]),
                      <<[op |-> "add_sheet", mode |-> "std"], [op |-> "add_sheet", mode |-> "low"], [op |-> "add_sheet", mode |-> "const"]>>)
        /\ hist = << >>
        /\ front = 0
\* Row ordered: a row is not touched again once a later one was.  A saved
\* workbook continues on the row after everything it holds.
Last(s) == LET rs == {p[1] : p \in DOMAIN s.sheets[1].cells} \cup DOMAIN s.sheets[1].rows IN IF rs = {} THEN 0 ELSE SetMax(rs) + 1
Next == /\ Len(hist) < Depth
        /\ \E o \in Alpha :
             /\ o.op # "save" => o.r >= front
             /\ o.op = "clear" => o.r = st.sheets[2].cur   \* cells can only be cleared in the row being written
             /\ o.op = "save" => hist # << >> /\ hist[Len(hist)].op # "save"
             /\ st' = Apply(st, o)
             /\ hist' = Append(hist, o)
             /\ front' = IF o.op = "save" THEN Max2(front, Last(st)) ELSE IF o.op \in {"rformat", "rheight"} THEN front ELSE o.r
             /\ PrintT("@@HIST " \o ToJson(hist'))
Facts(k) == SheetFacts("", Saved(st.sheets[k]), {"c", "x", "row", "col", "link", "merge"})
ModesAgree == Facts(1) = Facts(2) /\ Facts(1) = Facts(3)
=============================================================================
