----------------------------- MODULE MC_Charts -----------------------------
(* Every short history of cells written and charts inserted: what a chart    *)
(* keeps of the cells it refers to is what they are at the time of the save. *)
EXTENDS Charts, Json
CONSTANTS Depth
VARIABLES st, hist, ok
vars == <<st, hist, ok>>
SpecView == <<st, Len(hist)>>
Nm == <<"S", "1">>
Setup == <<[op |-> "add_sheet", mode |-> "std"], [op |-> "setname", s |-> 0, name |-> "S1", nc |-> Nm, nl |-> "s1"]>>
RECURSIVE After(_, _)
After(s, os) == IF os = << >> THEN s ELSE After(ChartsStep(s, os[1]).st, Tail(os))

Rg(r, c, r2, c2) == [txt |-> "", tn |-> << >>, rg |-> <<r, c, r2, c2>>, sn |-> Nm]
Raw(r, c, r2, c2) == [rg |-> <<"S1", r, c, r2, c2>>]
\* A chart as the specification sees it and as it is given to the library.
Ser(vr, cr, nr) ==
    [push |-> FALSE, os |-> (IF vr = << >> THEN << >> ELSE <<[k |-> "values", v |-> Rg(vr[1], vr[2], vr[3], vr[4])]>>)
                            \o (IF cr = << >> THEN << >> ELSE <<[k |-> "categories", v |-> Rg(cr[1], cr[2], cr[3], cr[4])]>>)
                            \o (IF nr = << >> THEN << >> ELSE <<[k |-> "name", v |-> Rg(nr[1], nr[2], nr[3], nr[4])]>>)]
RawSer(vr, cr, nr) ==
    [set |-> (IF vr = << >> THEN << >> ELSE <<[k |-> "values", v |-> Raw(vr[1], vr[2], vr[3], vr[4])]>>)
             \o (IF cr = << >> THEN << >> ELSE <<[k |-> "categories", v |-> Raw(cr[1], cr[2], cr[3], cr[4])]>>)
             \o (IF nr = << >> THEN << >> ELSE <<[k |-> "name", v |-> Raw(nr[1], nr[2], nr[3], nr[4])]>>)]
E == << >>
Chart(t, ss) == [op |-> "chartx", s |-> 0, r |-> 5, c |-> 0,
                 ch |-> [type |-> t, series |-> [k \in DOMAIN ss |-> RawSer(ss[k][1], ss[k][2], ss[k][3])], set |-> E],
                 cx |-> [type |-> t, series |-> [k \in DOMAIN ss |-> Ser(ss[k][1], ss[k][2], ss[k][3])], set |-> E, title |-> E, legend |-> E, x |-> E, y |-> E, x2 |-> E, y2 |-> E]]
Alpha == {[op |-> "num", s |-> 0, r |-> 0, c |-> 0, v |-> "7.0", hf |-> FALSE], [op |-> "num", s |-> 0, r |-> 1, c |-> 0, v |-> "8.5", hf |-> FALSE],
          [op |-> "str", s |-> 0, r |-> 0, c |-> 0, v |-> "t", vt |-> "t", vlen |-> 1, hf |-> FALSE],
          [op |-> "datetime", s |-> 0, r |-> 0, c |-> 0, v |-> "2024-01-01", serial |-> "45292.0", hf |-> FALSE],
          [op |-> "formula", s |-> 0, r |-> 1, c |-> 0, v |-> "1+2", ft |-> "1+2", res |-> "3", rt |-> "n", rv |-> "3.0", hf |-> FALSE],
          [op |-> "clear", s |-> 0, r |-> 0, c |-> 0],
          Chart("Column", <<<<<<0, 0, 1, 0>>, E, E>>>>), Chart("Line", <<<<<<0, 0, 1, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 0>>>>>>),
          Chart("Scatter", <<<<<<1, 0, 1, 0>>, <<0, 0, 0, 0>>, E>>>>), Chart("Scatter", <<<<<<1, 0, 1, 0>>, E, E>>>>), Chart("Pie", E),
          Chart("Bar", <<<<<<0, 0, 0, 1>>, <<0, 0, 0, 0>>, E>>, <<<<0, 0, 1, 0>>, E, <<0, 0, 0, 0>>>>>>),
          [op |-> "save", how |-> "buffer"]}
Init == /\ st = After(ChartsInit([id |-> ""]), Setup)
        /\ hist = << >> /\ ok = TRUE
Next == /\ Len(hist) < Depth
        /\ \E o \in Alpha :
             /\ o.op = "save" => hist # << >> /\ hist[Len(hist)].op # "save"
             /\ LET r == ChartsStep(st, o) IN
                /\ st' = r.st
                /\ ok' = (r.res = "ok" \/ r.st = st)
             /\ hist' = Append(hist, o)
             /\ PrintT("@@HIST " \o ToJson(hist'))
RejectedHasNoEffect == ok
facts == ChartFactsOf(st)
\* What a chart keeps depends on the cells only, not on when they were written.
CacheIsCurrent == \A f \in facts : f[3] = "s0/val/p0" =>
                     f[4] = (LET g == Slot(st.charts[1][<<5, 0>>].series[1].os, "values") IN
                             LET d == CellData(st.sheets[1], <<g.r, g.c>>) IN IF d[1] = "str" THEN "0.0" ELSE d[2])
EverySeriesWritten == \A k \in DOMAIN st.charts[1] : \A j \in DOMAIN st.charts[1][k].series :
                        Cardinality({f \in facts : f[3] = "s" \o S(j - 1)}) = 1
=============================================================================
