----------------------------- MODULE MC_Ranges ------------------------------
(* Every pair of ranges in a small square, in every order: accepted exactly  *)
(* when they share no cell.                                                  *)
EXTENDS MCBase
N == 3
AlphaV == { [op |-> "merge", s |-> 0, r |-> a, c |-> b, r2 |-> c, c2 |-> d, v |-> "m", vt |-> "m", vlen |-> 1] :
            a \in 0 .. N, b \in 0 .. N, c \in 0 .. N, d \in 0 .. N }
Valid == { o \in AlphaV : o.r <= o.r2 /\ o.c <= o.c2 }
StartV == << [op |-> "add_sheet", mode |-> "std"] >>
Cells(o) == (o.r .. o.r2) \X (o.c .. o.c2)
AcceptedIffDisjoint ==
    Len(hist) = 2 /\ Cardinality(Cells(hist[1])) > 1 /\ Cardinality(Cells(hist[2])) > 1 =>
        (Cardinality(st.sheets[1].merged) = 2 <=> Cells(hist[1]) \cap Cells(hist[2]) = {})
=============================================================================
