------------------------------- MODULE MCBase -------------------------------
(* Exhaustive exploration of the grid specification over a small alphabet of *)
(* operations.  Each distinct state is visited once (the history is hidden   *)
(* by VIEW); each transition prints the history that takes it, which is then *)
(* replayed into the real library.                                           *)
EXTENDS Grid, Json, IOUtils

CONSTANTS Alpha,     \* set of operation records
          Start,     \* operations applied before exploration
          Depth,     \* number of explored operations
          Emit       \* print the histories
VARIABLES st, hist, ok
mcvars == <<st, hist, ok>>
SpecView == <<st, Len(hist)>>

ApplyAll(s, ops) == FoldL(LAMBDA a, o : GridStep(a, o).st, s, ops)

MCInit == /\ st = ApplyAll(GridInit([id |-> ""]), Start)
          /\ hist = << >>
          /\ ok = TRUE

\* A rejected operation changes nothing, except that the writes of a
\* composite call before the rejected one stand.
Composite == {"row", "col", "rowmat", "colmat", "srow", "cwidths", "cwidthspx", "cformats", "chides"}
MCNext ==
    /\ Len(hist) < Depth
    /\ \E o \in Alpha :
         LET r == GridStep(st, o) IN
         /\ st' = r.st
         /\ hist' = Append(hist, o)
         /\ ok' = (r.res = "ok" \/ o.op \in Composite \/ r.st = st)
         /\ IF Emit THEN PrintT("@@HIST " \o ToJson(hist')) ELSE TRUE

RejectedHasNoEffect == ok

Disjoint(s) == \A a, b \in s : a # b => ~Overlap(a, b)
MergedDisjoint == \A k \in DOMAIN st.sheets : Disjoint(st.sheets[k].merged)
InBounds == \A k \in DOMAIN st.sheets :
              /\ \A p \in DOMAIN st.sheets[k].cells : InGrid(p[1], p[2])
              /\ \A r \in DOMAIN st.sheets[k].rows : r < ROWMAX
              /\ \A c \in DOMAIN st.sheets[k].cols : c < COLMAX
LevelsBounded == \A k \in DOMAIN st.sheets :
              /\ \A r \in DOMAIN st.sheets[k].rows : st.sheets[k].rows[r].lvl \in 0 .. 7
              /\ \A c \in DOMAIN st.sheets[k].cols : st.sheets[k].cols[c].lvl \in 0 .. 7
=============================================================================
