------------------------------ MODULE MC_Areas ------------------------------
(* Every pair of tables, with and without a header, and autofilters in a     *)
(* small square, in every order: the second is accepted exactly when it      *)
(* shares no cell with the first, or no header cell for an autofilter.       *)
EXTENDS MCBase
N == 2
Rs == { q \in (0 .. N) \X (0 .. N) \X (0 .. N) \X (0 .. N) : q[1] <= q[3] /\ q[2] <= q[4] }
Tb(h) == { [op |-> "table", s |-> 0, r |-> q[1], c |-> q[2], r2 |-> q[3], c2 |-> q[4], opts |-> <<<<"cols", "">>, <<"header", h>>>>, given |-> << >>,
            header |-> h, total |-> FALSE, banded |-> TRUE, bandedc |-> FALSE, first |-> FALSE, last |-> FALSE, filter |-> TRUE,
            namex |-> "", namel |-> "", style |-> "TableStyleMedium9", cols |-> << >>] : q \in { x \in Rs : ~h \/ x[1] # x[3] } }
Af == { [op |-> "autofilter", s |-> 0, r |-> q[1], c |-> q[2], r2 |-> q[3], c2 |-> q[4]] : q \in Rs }
AlphaV == Tb(TRUE) \cup Tb(FALSE) \cup Af
StartV == << [op |-> "add_sheet", mode |-> "std"] >>
Cells(o) == (o.r .. o.r2) \X (o.c .. o.c2)
HeadRow(o) == <<o.r, o.c, o.r, o.c2>>
Clash(a, b) == CASE a.op = "table" /\ b.op = "table" -> Cells(a) \cap Cells(b) # {}
                 [] a.op = "table" /\ b.op = "autofilter" -> a.header /\ Overlap(HeadRow(a), HeadRow(b))
                 [] a.op = "autofilter" /\ b.op = "table" -> b.header /\ Overlap(HeadRow(a), HeadRow(b))
                 [] OTHER -> FALSE
RangeOf(o) == <<o.r, o.c, o.r2, o.c2>>
Kept(o) == IF o.op = "autofilter" THEN st.sheets[1].af = RangeOf(o) ELSE \E k \in DOMAIN st.sheets[1].tables : st.sheets[1].tables[k].r = RangeOf(o)
AcceptedIffDisjoint == Len(hist) = 2 => \/ (hist[1].op = hist[2].op /\ RangeOf(hist[1]) = RangeOf(hist[2]))
                                         \/ (Kept(hist[2]) <=> ~Clash(hist[1], hist[2]))
AllDisjoint == \A a, b \in DOMAIN st.sheets[1].tables : a # b => ~Overlap(st.sheets[1].tables[a].r, st.sheets[1].tables[b].r)
=============================================================================
