--------------------------- MODULE MC_ChartTypes ---------------------------
(* Every type of chart with two series, each on the first or second axes,    *)
(* alone or combined with every type that shares its axes.                   *)
EXTENDS Charts, Json
VARIABLES hist, st
vars == <<hist, st>>
SpecView == vars
Nm == <<"S", "1">>
Setup == <<[op |-> "add_sheet", mode |-> "std"], [op |-> "setname", s |-> 0, name |-> "S1", nc |-> Nm, nl |-> "s1"],
           [op |-> "num", s |-> 0, r |-> 0, c |-> 0, v |-> "7.0", hf |-> FALSE], [op |-> "str", s |-> 0, r |-> 0, c |-> 1, v |-> "t", vt |-> "t", vlen |-> 1, hf |-> FALSE]>>
RECURSIVE After(_, _)
After(s, os) == IF os = << >> THEN s ELSE After(ChartsStep(s, os[1]).st, Tail(os))
Types == {"Area", "AreaStacked", "AreaPercentStacked", "Bar", "BarStacked", "BarPercentStacked", "Column", "ColumnStacked", "ColumnPercentStacked", "Line",
          "LineStacked", "LinePercentStacked", "Radar", "RadarWithMarkers", "RadarFilled", "Pie", "Doughnut", "Stock", "Scatter", "ScatterStraight",
          "ScatterStraightWithMarkers", "ScatterSmooth", "ScatterSmoothWithMarkers"}
Masks(t) == IF Round(GroupOf(t)) THEN {<<FALSE>>, <<FALSE, FALSE>>} ELSE {<<FALSE>>, <<TRUE>>, <<FALSE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, FALSE>>, <<TRUE, TRUE>>}
Partners(t) == LET g == GroupOf(t) IN
               IF g \in {"Area", "Column", "Line", "Stock"} THEN {"Area", "Column", "ColumnStacked", "Line", "LinePercentStacked"}
               ELSE IF g = "Bar" THEN {"Bar", "BarStacked"} ELSE IF g = "Scatter" THEN {"Scatter", "ScatterSmooth"} ELSE {}
Slots(c) == <<[k |-> "values", v |-> [txt |-> "", tn |-> << >>, rg |-> <<0, c, 2, c>>, sn |-> Nm]], [k |-> "categories", v |-> [txt |-> "", tn |-> << >>, rg |-> <<0, 1, 2, 1>>, sn |-> Nm]]>>
Raws(c) == <<[k |-> "values", v |-> [rg |-> <<"S1", 0, c, 2, c>>]], [k |-> "categories", v |-> [rg |-> <<"S1", 0, 1, 2, 1>>]]>>
E == << >>
Sec(b) == IF b THEN <<[k |-> "secondary", v |-> TRUE]>> ELSE E
Cx(t, m, set) == [type |-> t, series |-> [k \in DOMAIN m |-> [push |-> FALSE, os |-> Slots(k - 1) \o Sec(m[k])]], set |-> set, title |-> E, legend |-> E,
                  x |-> E, y |-> E, x2 |-> E, y2 |-> E]
Ch(t, m, set) == [type |-> t, series |-> [k \in DOMAIN m |-> [set |-> Raws(k - 1) \o Sec(m[k])]], set |-> set]
Op(ch, cx) == [op |-> "chartx", s |-> 0, r |-> 5, c |-> 0, ch |-> ch, cx |-> cx]
Alone == UNION {{Op(Ch(t, m, E), Cx(t, m, E)) : m \in Masks(t)} : t \in Types}
Combos == UNION {UNION {{Op(Ch(t, m, <<[k |-> "combine", v |-> Ch(t2, m2, E)]>>), Cx(t, m, <<[k |-> "combine", v |-> Cx(t2, m2, E)]>>))
                         : m \in {<<FALSE>>, <<FALSE, FALSE>>}, m2 \in {<<FALSE>>, <<TRUE>>, <<TRUE, TRUE>>, <<FALSE, FALSE>>}} : t2 \in Partners(t)} : t \in Types}
Init == hist = << >> /\ st = After(ChartsInit([id |-> ""]), Setup)
Next == /\ hist = << >>
        /\ \E o \in Alone \cup Combos : hist' = <<o>> /\ st' = ChartsStep(st, o).st /\ PrintT("@@HIST " \o ToJson(hist'))
Facts == {<<f[3], f[4]>> : f \in ChartFactsOf(st)}
Vals(fs, p) == {f[2] : f \in {g \in fs : g[1] = p}}
Inserted == hist # << >> => st.charts[1] # Empty
\* Series are numbered from 0, each in one group; groups that have axes have
\* both of them, and a group with second axes exists only if a series is on them.
NSer == IF hist = << >> THEN 0 ELSE LET c == hist[1].cx IN Len(c.series) + (IF HasCombined(c) THEN Len(Combined(c).series) ELSE 0)
WellFormed ==
    LET fs == Facts
        ax == [k \in 1 .. 4 |-> Vals(fs, "g" \o S(k) \o "/axes")]
    IN /\ \A k \in 0 .. NSer - 1 : LET vs == Vals(fs, "s" \o S(k)) IN Cardinality(vs) = 1 /\ \A v \in vs : Vals(fs, v) # {}
       /\ Vals(fs, "s" \o S(NSer)) = {}
       /\ \A k \in 1 .. 4 : /\ "first" \in ax[k] => Vals(fs, "x") # {} /\ Vals(fs, "y") # {}
                            /\ "second" \in ax[k] => Vals(fs, "x2") # {} /\ Vals(fs, "y2") # {}
       /\ (Vals(fs, "x2") # {} => \E k \in 1 .. 4 : "second" \in ax[k])
=============================================================================
