------------------------------ MODULE Charts ------------------------------
(* Charts: what a chart refers to, the copies of the referenced cells it     *)
(* keeps, how its series are arranged into groups and axes, and what every   *)
(* option shows up as in the file.                                           *)
EXTENDS Grid, Refs

----------------------------------------------------------------------------
(* A chart is built from lists of options [k, v], applied in order.           *)
LastIx(os, ks) == LET s == {i \in DOMAIN os : os[i].k \in ks} IN IF s = {} THEN 0 ELSE SetMax(s)
HasK(os, k) == LastIx(os, {k}) # 0
LastV(os, k, d) == LET i == LastIx(os, {k}) IN IF i = 0 THEN d ELSE os[i].v
\* ... where values that are not allowed are ignored.
LastOk(os, k, d, Good(_)) ==
    LET s == {i \in DOMAIN os : os[i].k = k /\ Good(os[i].v)} IN IF s = {} THEN d ELSE os[SetMax(s)].v
Allowed(os, k, Good(_)) == \E i \in DOMAIN os : os[i].k = k /\ Good(os[i].v)

(* The appearance of a chart is a set of <<path, value>> pairs.               *)
One(p, v) == {<<p, v>>}
When(b, s) == IF b THEN s ELSE {}
Under(p, s) == {<<p \o x[1], x[2]>> : x \in s}
Shown(os, k, p) == When(LastV(os, k, FALSE), One(p, "1"))

----------------------------------------------------------------------------
(* Colours, lines, fills and fonts.                                           *)
SchemeName == <<"bg1", "tx1", "bg2", "tx2", "accent1", "accent2", "accent3", "accent4", "accent5", "accent6">>
\* Brightness of the shades of a theme colour, and how much is added to it.
LumMod(i, s) == CASE i = 0 -> <<95, 85, 75, 65, 50>>[s] [] i = 1 -> <<50, 65, 75, 85, 95>>[s] [] i = 2 -> <<90, 75, 50, 25, 10>>[s]
                  [] OTHER -> <<20, 40, 60, 75, 50>>[s]
LumOff(i, s) == CASE i = 1 -> 100 - LumMod(1, s) [] i > 2 /\ s < 4 -> 100 - LumMod(i, s) [] OTHER -> 0
Kilo(n) == IF n = 0 THEN "" ELSE S(n * 1000)
ColorText(c) == IF c[1] = "rgb" THEN c[2]
                ELSE LET i == c[3] s == c[4] IN
                     SchemeName[i + 1] \o ":" \o (IF s = 0 THEN ":" ELSE Kilo(LumMod(i, s)) \o ":" \o Kilo(LumOff(i, s)))
Faded(os) == LET t == LastOk(os, "transparency", 0, LAMBDA v : v <= 100) IN
             IF t = 0 THEN {} ELSE One("@alpha", S((100 - t) * 1000))

LineP(os) ==
    LET width == LastOk(os, "width", [m |-> -1], LAMBDA v : v.m <= 1584000).m
        d == LastV(os, "dash", "solid")
    IN One("", "")
       \cup When(width >= 0, One("@w", S(3175 * (((width + 125) * 4) \div 1000))))     \* in quarters of a point
       \cup (IF LastV(os, "hidden", FALSE) THEN One("/fill", "none")
             ELSE When(HasK(os, "color"), One("/color", ColorText(LastV(os, "color", "")))
                                          \cup Under("/color", Faded(os)))
                  \cup When(d # "solid", One("/dash", d)))
GoodStops(s) == SelectSeq(s, LAMBDA x : x[2] <= 100)
GradientP(os) ==
    LET t == LastV(os, "type", "linear")
        stops == GoodStops(LastOk(os, "stops", << >>, LAMBDA s : Len(GoodStops(s)) \in 2 .. 10))
        angle == LastOk(os, "angle", 90, LAMBDA v : v < 360)
    IN One("", "gradient:" \o t) \cup When(t = "linear", One("@ang", S(60000 * angle)))
       \cup {<<"/stop" \o S(k), S(1000 * stops[k][2]) \o "|" \o ColorText(stops[k][1])>> : k \in DOMAIN stops}
PatternP(os) ==
    One("", "pattern:" \o LastV(os, "pattern", "pct5"))
    \cup When(HasK(os, "fg"), One("/fg", ColorText(LastV(os, "fg", ""))))
    \cup (IF HasK(os, "bg") THEN One("/bg", ColorText(LastV(os, "bg", ""))) ELSE When(HasK(os, "fg"), One("/bg", "FFFFFF")))
FormatP(os) ==
    (CASE HasK(os, "nofill") -> One("/fill", "none")
       [] HasK(os, "solid") -> LET f == LastV(os, "solid", << >>) IN
              One("/fill", "solid") \cup One("/fill/c", ColorText(LastV(f, "color", ""))) \cup Under("/fill/c", Faded(f))
       [] HasK(os, "pattern") -> Under("/fill", PatternP(LastV(os, "pattern", << >>)))
       [] HasK(os, "gradient") -> Under("/fill", GradientP(LastV(os, "gradient", << >>)))
       [] OTHER -> {})
    \cup (IF HasK(os, "noline") \/ HasK(os, "noborder") THEN One("/line", "") \cup One("/line/fill", "none")
          ELSE LET i == LastIx(os, {"line", "border"}) IN IF i = 0 THEN {} ELSE Under("/line", LineP(os[i].v)))
FormatOf(os, k) == FormatP(LastV(os, k, << >>))

RotOk(v) == v \in 270 .. 271 \/ (v >= -90 /\ v <= 90)
\* "axis" fonts are not bold when they are italic, unless asked to be.
FontP(os, norot, axis) ==
    LET b == LastIx(os, {"bold", "unbold"})
        italic == HasK(os, "italic")
        rot == LastOk(os, "rotation", norot, RotOk)
        size == LastV(os, "size", [m |-> 0]).m
        pitch == LastV(os, "pitch", 0)
        chs == LastV(os, "charset", 0)
        face == LastV(os, "name", "")
    IN When(b # 0, One("@b", IF os[b].k = "bold" THEN "1" ELSE "0"))
       \cup When(b = 0 /\ italic /\ axis, One("@b", "0"))
       \cup When(italic, One("@i", "1"))
       \cup When(HasK(os, "underline"), One("@u", "sng"))
       \cup When(HasK(os, "strike"), One("@strike", "sngStrike"))
       \cup When(size > 0, One("@sz", S((size + 5) \div 10)))
       \cup When(HasK(os, "color"), One("@color", ColorText(LastV(os, "color", ""))))
       \cup When(face # "", One("@face", face))
       \cup When(pitch > 0, One("@pitch", S(pitch)))
       \cup When(chs > 0, One("@charset", S(chs)))
       \cup When(LastV(os, "rtl", FALSE), One("@rtl", "1"))
       \cup (CASE rot = 360 -> {} [] rot = 270 -> One("@rot", "0|wordArtVert") [] rot = 271 -> One("@rot", "0|eaVert")
               [] OTHER -> One("@rot", S(rot * 60000) \o "|horz"))
FontOf(os, k, axis) == IF HasK(os, k) THEN Under("/font", FontP(LastV(os, k, << >>), 360, axis)) ELSE {}

UnitOk(v) == v[1].m >= 0 /\ v[1].m <= 1000 /\ v[2].m >= 0 /\ v[2].m <= 1000
\* Sizes are used by legends and plot areas only; for plot areas they are
\* those of the inner area.
LayoutP(os, sized, inner) ==
    LET o == LastOk(os, "offset", << >>, UnitOk)
        z == LastOk(os, "size", << >>, UnitOk)
    IN When(o # << >>, One("/layout/x", o[1].t) \cup One("/layout/y", o[2].t))
       \cup When(sized /\ z # << >>, One("/layout/w", z[1].t) \cup One("/layout/h", z[2].t))
       \cup When(inner /\ (o # << >> \/ z # << >>), One("/layout/layoutTarget", "inner"))

----------------------------------------------------------------------------
(* References and the copies of the cells they refer to.                      *)
NoSlot == [txt |-> "", tn |-> << >>, rg |-> << >>, sn |-> << >>]
SlotRange(v) == IF v.rg # << >> THEN [ok |-> v.sn # << >>, sheet |-> v.sn, r |-> v.rg[1], c |-> v.rg[2], r2 |-> v.rg[3], c2 |-> v.rg[4]]
                ELSE ParseRange(v.tn)
Slot(os, k) == SlotRange(LastV(os, k, NoSlot))
SlotText(os, k) == IF Slot(os, k).ok THEN "" ELSE LastV(os, k, NoSlot).txt
RefText(g) == Quoted(g.sheet) \o "!" \o RangeAbs(g.r, g.c, g.r2, g.c2)
SheetsNamed(st, name) == {n \in DOMAIN st.sheets : st.cnames[n] = name}

\* Type and text of what a cell contributes.
CellData(sh, p) ==
    IF p \notin DOMAIN sh.cells THEN <<"", "">>
    ELSE LET c == sh.cells[p] IN
         CASE c.k = "n" -> <<IF c.e = <<"date">> THEN "date" ELSE "num", c.v>>
           [] c.k = "s" -> <<"str", c.v>>
           [] c.k = "r" -> <<"str", Join([k \in DOMAIN c.v |-> c.v[k][2]])>>
           [] c.k \in {"f", "a", "d"} ->
                 IF c.e[1] = "n" THEN <<"num", c.e[2]>> ELSE IF c.e[2] = "" THEN <<"num", "">>
                 ELSE <<"str", IF c.e[1] # "b" THEN c.e[2] ELSE IF c.e[2] = "1" THEN "TRUE" ELSE "FALSE">>
           [] OTHER -> <<"", "">>
Data(st, g) ==
    LET ns == SheetsNamed(st, g.sheet) IN
    IF ns = {} \/ g.r > g.r2 \/ g.c > g.c2 THEN << >>
    ELSE LET sh == st.sheets[CHOOSE n \in ns : TRUE]
             ps == Positions(g.r, g.c, g.r2, g.c2)
         IN [k \in DOMAIN ps |-> CellData(sh, ps[k])]
DataType(d) == IF \E k \in DOMAIN d : d[k][1] = "str" THEN "str"
               ELSE LET ks == {k \in DOMAIN d : d[k][1] # ""} IN IF ks = {} THEN "" ELSE d[SetMax(ks)][1]
StrRefP(st, g) ==
    LET d == Data(st, g) IN
    One("", "str") \cup One("/f", RefText(g)) \cup When(d # << >>, One("/n", S(Len(d))))
    \cup {<<"/p" \o S(k - 1), d[k][2]>> : k \in {j \in DOMAIN d : d[j][2] # ""}}
NumRefP(st, g) ==
    LET d == Data(st, g) IN
    One("", "num") \cup One("/f", RefText(g))
    \cup When(d # << >>, One("/n", S(Len(d))) \cup One("/fmt", IF DataType(d) = "date" THEN "dd/mm/yyyy" ELSE "General"))
    \cup {<<"/p" \o S(k - 1), IF d[k][1] = "str" THEN "0.0" ELSE d[k][2]>> : k \in {j \in DOMAIN d : d[j][2] # ""}}
RefP(st, g) == IF DataType(Data(st, g)) = "str" THEN StrRefP(st, g) ELSE NumRefP(st, g)

\* A title is a text, a reference, or only formatting.  rot: the rotation of
\* titles that are not given one.
TitleP(st, os, name, fmt, font, lay, over, rot) ==
    LET g == Slot(os, name)
        t == SlotText(os, name)
        f == FormatOf(os, fmt)
        frame == LayoutP(LastV(os, lay, << >>), FALSE, FALSE) \cup Shown(os, over, "/overlay") \cup f
        fonts == Under("/font", FontP(LastV(os, font, << >>), rot, FALSE))
    IN CASE t # "" -> One("", "") \cup One("/text", t) \cup fonts \cup frame
         [] g.ok -> One("", "") \cup Under("/ref", StrRefP(st, g)) \cup frame \cup When(f = {} \/ HasK(os, font), fonts)
         [] f # {} -> One("", "") \cup frame
         [] OTHER -> {}

----------------------------------------------------------------------------
(* Types of charts.                                                           *)
GroupOf(t) == CASE t \in {"Area", "AreaStacked", "AreaPercentStacked"} -> "Area"
                [] t \in {"Bar", "BarStacked", "BarPercentStacked"} -> "Bar"
                [] t \in {"Column", "ColumnStacked", "ColumnPercentStacked"} -> "Column"
                [] t \in {"Line", "LineStacked", "LinePercentStacked"} -> "Line"
                [] t \in {"Radar", "RadarWithMarkers", "RadarFilled"} -> "Radar"
                [] t \in {"Scatter", "ScatterStraight", "ScatterStraightWithMarkers", "ScatterSmooth", "ScatterSmoothWithMarkers"} -> "Scatter"
                [] OTHER -> t
Round(g) == g \in {"Pie", "Doughnut"}
Stacked(t) == t \in {"AreaStacked", "BarStacked", "ColumnStacked", "LineStacked"}
Percent(t) == t \in {"AreaPercentStacked", "BarPercentStacked", "ColumnPercentStacked", "LinePercentStacked"}
Smooth(t) == t \in {"ScatterSmooth", "ScatterSmoothWithMarkers"}
Grouping(t) == CASE Stacked(t) -> "stacked" [] Percent(t) -> "percentStacked" [] GroupOf(t) \in {"Bar", "Column"} -> "clustered" [] OTHER -> "standard"
Element(g) == CASE g = "Area" -> "areaChart" [] g \in {"Bar", "Column"} -> "barChart" [] g = "Line" -> "lineChart" [] g = "Pie" -> "pieChart"
                [] g = "Doughnut" -> "doughnutChart" [] g = "Radar" -> "radarChart" [] g = "Scatter" -> "scatterChart" [] OTHER -> "stockChart"
LabelPos(g) == CASE g \in {"Area", "Radar"} -> "ctr" [] g \in {"Bar", "Column"} -> "outEnd" [] Round(g) -> "bestFit" [] OTHER -> "r"
DefaultNum(t) == IF Percent(t) THEN "0%25;" ELSE "General"

----------------------------------------------------------------------------
(* Series.                                                                    *)
OnSecond(s) == LastV(s.os, "secondary", FALSE)
InGroup(ch, second) == {k \in DOMAIN ch.series : OnSecond(ch.series[k]) = second}
\* Positions of the series in the order they are written.
Written(ch) == SortedSeq(InGroup(ch, FALSE)) \o SortedSeq(InGroup(ch, TRUE))
HasCombined(ch) == HasK(ch.set, "combine")
Combined(ch) == LastV(ch.set, "combine", << >>)
NPoints(g) == Max2(g.r2 - g.r + 1, g.c2 - g.c + 1)

\* Series without markers of their own have none on some types.
Bare(t) == t \in {"ScatterStraight", "ScatterSmooth", "Radar"} \/ GroupOf(t) = "Line"
MarkerP(os) ==
    LET st == LastIx(os, {"automatic", "none", "type"})
        state == IF st = 0 THEN "" ELSE os[st].k
        sized == {i \in DOMAIN os : os[i].k = "size" /\ os[i].v \in 2 .. 72}
        size == IF sized = {} THEN 0 ELSE os[SetMax(sized)].v
        auto == state = "automatic" /\ (sized = {} \/ SetMax(sized) < st)
        sym == IF state = "none" THEN "none" ELSE LastV(os, "type", "")
    IN IF auto THEN {}
       ELSE One("/marker", "") \cup When(sym # "", One("/marker/symbol", sym)) \cup When(size > 0, One("/marker/size", S(size)))
            \cup Under("/marker", FormatOf(os, "format"))
SeriesMarker(t, os) == IF HasK(os, "marker") THEN MarkerP(LastV(os, "marker", << >>)) ELSE IF Bare(t) THEN MarkerP(<<[k |-> "none"]>>) ELSE {}
\* Plain scatter charts hide their lines unless they are formatted.
ScatterLine == <<[k |-> "line", v |-> <<[k |-> "width", v |-> [m |-> 2250]]>>]>>
HiddenLine == <<[k |-> "line", v |-> <<[k |-> "width", v |-> [m |-> 2250]], [k |-> "hidden", v |-> TRUE]>>]>>
SeriesFormat(t, s) ==
    LET f == LastV(s.os, "format", << >>)
        own == HasK(s.os, "format") /\ ~(s.push /\ FormatP(f) = {})
    IN IF t # "Scatter" THEN FormatP(f)
       ELSE IF ~own THEN FormatP(HiddenLine)
       ELSE FormatP(IF HasK(f, "line") \/ HasK(f, "border") THEN f ELSE f \o ScatterLine)

LabelShown(os, custom) == HasK(os, "value") \/ HasK(os, "yvalue") \/ HasK(os, "text")
                          \/ (~custom /\ ~HasK(os, "category") /\ ~HasK(os, "xvalue") /\ ~HasK(os, "percentage"))
LabelP(st, g, os, custom) ==
    LET pos == LastV(os, "position", "")
        sep == LastOk(os, "separator", ",", LAMBDA v : v \in {",", ";", ".", " ", "%A;"})
        named == HasK(os, "text")
        ref == Slot(os, "text")
        txt == SlotText(os, "text")
    IN When(HasK(os, "numfmt") /\ LastV(os, "numfmt", "") # "", One("/numFmt", LastV(os, "numfmt", "") \o "|0"))
       \cup FormatOf(os, "format")
       \cup When(~custom \/ ~named \/ txt = "", FontOf(os, "font", FALSE))
       \cup When(named /\ txt # "", One("/text", txt) \cup FontOf(os, "font", FALSE))
       \cup When(named /\ ref.ok, Under("/ref", StrRefP(st, ref)))
       \cup When(pos # "" /\ pos # LabelPos(g), One("/dLblPos", pos))
       \cup When(HasK(os, "key"), One("/showLegendKey", "1"))
       \cup When(LabelShown(os, custom), One("/showVal", "1"))
       \cup When(HasK(os, "category") \/ HasK(os, "xvalue"), One("/showCatName", "1"))
       \cup When(HasK(os, "series"), One("/showSerName", "1"))
       \cup When(HasK(os, "percentage"), One("/showPercent", "1"))
       \cup When(sep # ",", One("/separator", sep \o " "))
       \cup When(HasK(os, "leader"), One("/showLeaderLines", "1"))
\* Labels without effect: the point keeps the label it would have had.
Unlabelled(os) ==
    (\A i \in DOMAIN os : os[i].k \in {"position", "separator", "numfmt", "format"})
    /\ LastV(os, "position", "") = "" /\ LastOk(os, "separator", ",", LAMBDA v : v \in {",", ";", ".", " ", "%A;"}) = ","
    /\ LastV(os, "numfmt", "") = "" /\ FormatOf(os, "format") = {}
CustomP(st, g, os) == IF HasK(os, "hidden") THEN One("/delete", "1") ELSE LabelP(st, g, os, TRUE)
LabelsP(st, g, os, max) ==
    LET cs == LastV(os, "labels", << >>) IN
    When(HasK(os, "label") \/ HasK(os, "labels"),
         One("/dLbls", "") \cup Under("/dLbls", LabelP(st, g, LastV(os, "label", << >>), FALSE))
         \cup UNION {LET p == "/dLbls/" \o S(k - 1) IN One(p, "") \cup Under(p, CustomP(st, g, cs[k]))
                     : k \in {j \in DOMAIN cs : j <= max /\ ~Unlabelled(cs[j])}})

TrendP(os) ==
    LET t == LastV(os, "type", <<"none", 0>>)
        f == LastV(os, "forward", [m |-> 0])
        b == LastV(os, "backward", [m |-> 0])
    IN When(t[1] # "none",
            One("/trend", t[1])
            \cup When(LastV(os, "name", "") # "", One("/trend/name", LastV(os, "name", "")))
            \cup Under("/trend", FormatOf(os, "format"))
            \cup When(t[1] = "poly", One("/trend/order", S(t[2]))) \cup When(t[1] = "movingAvg", One("/trend/period", S(t[2])))
            \cup When(f.m > 0, One("/trend/forward", f.t)) \cup When(b.m > 0, One("/trend/backward", b.t))
            \cup When(HasK(os, "intercept"), One("/trend/intercept", LastV(os, "intercept", [t |-> ""]).t))
            \cup Shown(os, "rsquared", "/trend/dispRSqr")
            \cup When(LastV(os, "equation", FALSE),
                      One("/trend/dispEq", "1") \cup One("/trend/label/numFmt", "General|0")
                      \cup Under("/trend/label", FormatOf(os, "lformat") \cup FontOf(os, "lfont", FALSE))))

ErrOk(v) == CASE v[1] = "fixedVal" -> v[2].m > 0 [] v[1] \in {"percentage", "stdDev"} -> v[2].m >= 0 [] OTHER -> TRUE
ErrP(st, os) ==
    LET t == LastOk(os, "type", <<"stdErr">>, ErrOk) IN
    One("", LastV(os, "direction", "both")) \cup One("/errValType", t[1])
    \cup When(~LastV(os, "cap", TRUE), One("/noEndCap", "1"))
    \cup (CASE t[1] \in {"fixedVal", "percentage", "stdDev"} -> One("/val", t[2].t)
            [] t[1] = "cust" -> Under("/plus", NumRefP(st, SlotRange(t[2]))) \cup Under("/minus", NumRefP(st, SlotRange(t[3])))
            [] OTHER -> {})
    \cup FormatOf(os, "format")
ErrsP(st, g, os) ==
    LET p(k, d) == When(HasK(os, k), Under("/err" \o d, ErrP(st, LastV(os, k, << >>)))) IN
    CASE g = "Bar" -> p("xerr", "") [] g = "Column" -> p("yerr", "") [] g = "Scatter" -> p("xerr", "x") \cup p("yerr", "y")
      [] OTHER -> p("yerr", "y")

PointP(g, f) == Under(IF g \in {"Scatter", "Line"} THEN "/marker" ELSE "", FormatP(f))
PointsP(g, os, max) ==
    LET i == LastIx(os, {"points", "colors"})
        ps == IF i = 0 THEN << >> ELSE os[i].v
    IN UNION {LET p == "/pt" \o S(k - 1) IN One(p, "") \cup Under(p, PointP(g, ps[k]))
              : k \in {j \in DOMAIN ps : j <= max /\ FormatP(ps[j]) # {}}}

SeriesP(st, ch, s) ==
    LET os == s.os
        t == ch.type
        g == GroupOf(t)
        vals == Slot(os, "values")
        cats == Slot(os, "categories")
        max == NPoints(vals)
        scat == g = "Scatter"
        inv == LastIx(os, {"invertcolor"})
        smooth == IF HasK(os, "smooth") THEN LastV(os, "smooth", FALSE) /\ g \in {"Line", "Scatter"} ELSE Smooth(t)
    IN When(SlotText(os, "name") # "", One("/tx", SlotText(os, "name")))
       \cup When(Slot(os, "name").ok, Under("/tx", StrRefP(st, Slot(os, "name"))))
       \cup SeriesFormat(t, s) \cup SeriesMarker(t, os)
       \cup When(~scat /\ (HasK(os, "invert") \/ inv # 0), One("/invertIfNegative", "1"))
       \cup When(~scat /\ inv # 0, One("/inv/fill", "solid") \cup One("/inv/fill/c", ColorText(os[inv].v)))
       \cup PointsP(g, os, max) \cup LabelsP(st, g, os, max)
       \cup TrendP(LastV(os, "trendline", << >>)) \cup ErrsP(st, g, os)
       \cup When(cats.ok, Under(IF scat THEN "/xVal" ELSE "/cat", RefP(st, cats)))
       \cup Under(IF scat THEN "/yVal" ELSE "/val", NumRefP(st, vals))
       \cup When(smooth, One("/smooth", "1"))

----------------------------------------------------------------------------
(* Groups of series: by axes and, for combined charts, by type.              *)
LinesP(os, flag, fmt, p) ==
    LET i == LastIx(os, {flag, fmt}) IN
    When(i # 0 /\ (os[i].k = fmt \/ os[i].v = TRUE), One(p, "") \cup Under(p, FormatOf(os, fmt)))
UpDownP(os) ==
    LET i == LastIx(os, {"updown", "upfmt", "downfmt"}) IN
    When(i # 0 /\ (os[i].k # "updown" \/ os[i].v = TRUE),
         One("/upDownBars", "") \cup One("/upDownBars/gapWidth", "150") \cup One("/upDownBars/upBars", "") \cup One("/upDownBars/downBars", "")
         \cup Under("/upDownBars/upBars", FormatOf(os, "upfmt")) \cup Under("/upDownBars/downBars", FormatOf(os, "downfmt")))
GroupP(ch, second) ==
    LET t == ch.type
        g == GroupOf(t)
        os == ch.set
        mine == SortedSeq(InGroup(ch, second))
        gaps == {k \in DOMAIN mine : LastOk(ch.series[mine[k]].os, "gap", 150, LAMBDA v : v <= 500) # 150}
        laps == {k \in DOMAIN mine : HasK(ch.series[mine[k]].os, "overlap")}
        style == {k \in DOMAIN os : os[k].k = "rotation" /\ os[k].v <= 360}
    IN One("", Element(g))
       \cup When(~Round(g), One("/axes", IF second THEN "second" ELSE "first"))
       \cup When(g \in {"Area", "Bar", "Column", "Line"}, One("/grouping", Grouping(t)))
       \cup When(g \in {"Bar", "Column"}, One("/barDir", IF g = "Bar" THEN "bar" ELSE "col"))
       \cup When(g \in {"Bar", "Column"} /\ gaps # {},
                 One("/gapWidth", S(LastOk(ch.series[mine[SetMax(gaps)]].os, "gap", 150, LAMBDA v : v <= 500))))
       \cup When(g \in {"Bar", "Column"} /\ (laps # {} \/ Stacked(t) \/ Percent(t)),
                 One("/overlap", IF laps = {} THEN "100" ELSE S(LastV(ch.series[mine[SetMax(laps)]].os, "overlap", 0))))
       \cup When(Round(g), One("/varyColors", "1") \cup One("/firstSliceAng", S(LastOk(os, "rotation", 0, LAMBDA v : v <= 360))))
       \cup When(g = "Doughnut", One("/holeSize", S(LastOk(os, "hole", 50, LAMBDA v : v <= 90))))
       \cup When(g = "Scatter", One("/scatterStyle", IF Smooth(t) THEN "smoothMarker" ELSE "lineMarker"))
       \cup When(g = "Radar", One("/radarStyle", IF t = "RadarFilled" THEN "filled" ELSE "marker"))
       \cup When(g \in {"Area", "Line", "Stock"}, LinesP(os, "drop", "dropfmt", "/dropLines"))
       \cup When(g = "Line" \/ (g = "Stock" /\ ~second), LinesP(os, "highlow", "highlowfmt", "/hiLowLines"))
       \cup When(g \in {"Line", "Stock"}, UpDownP(os))
       \cup When(g = "Line", One("/marker", "1"))
Parts(ch) ==
    LET one(c, b) == IF InGroup(c, b) = {} THEN << >> ELSE <<<<c, b>>>>
        both(c) == one(c, FALSE) \o one(c, TRUE)
    IN both(ch) \o (IF HasCombined(ch) THEN both(Combined(ch)) ELSE << >>)

----------------------------------------------------------------------------
(* Axes.                                                                      *)
Axis0 == [type |-> "Value", pos |-> "b", between |-> TRUE, cross |-> <<"autoZero">>, hidden |-> FALSE, lbl |-> "nextTo", rot |-> 360,
          grid |-> FALSE, tick |-> "", auto |-> FALSE]
AxisDef(g, a) ==
    LET away == [Axis0 EXCEPT !.cross = <<"max">>, !.hidden = TRUE, !.lbl = "none"]
        left == [Axis0 EXCEPT !.pos = "l"]
        flat == g \in {"Area", "Scatter"}                                  \* categories at the ticks, not between them
        kind == CASE g = "Scatter" -> "Value" [] g = "Stock" -> "Date" [] OTHER -> "Category"
    IN CASE g = "Bar" -> (CASE a = "x" -> [Axis0 EXCEPT !.grid = TRUE]
                            [] a = "y" -> [left EXCEPT !.type = "Category", !.rot = -90]
                            [] a = "x2" -> [Axis0 EXCEPT !.type = "Category"]
                            [] OTHER -> [away EXCEPT !.pos = "l"])
         [] g = "Radar" -> (CASE a = "x" -> [Axis0 EXCEPT !.type = "Category", !.grid = TRUE]
                              [] a = "y" -> [left EXCEPT !.grid = TRUE, !.tick = "cross"]
                              [] OTHER -> Axis0)
         [] Round(g) -> Axis0
         [] OTHER -> (CASE a = "x" -> [Axis0 EXCEPT !.type = kind, !.between = ~flat, !.auto = g = "Stock"]
                        [] a = "y" -> [left EXCEPT !.between = g # "Scatter", !.rot = IF g = "Column" THEN 360 ELSE -90, !.grid = TRUE]
                        [] a = "x2" -> [away EXCEPT !.type = kind, !.between = ~flat, !.auto = g = "Stock"]
                        [] OTHER -> [left EXCEPT !.between = g # "Scatter"])
\* The axis with its options applied.
AxisOf(ch, a) ==
    LET os == ch[a]
        d == AxisDef(GroupOf(ch.type), a)
        au == LastIx(os, {"date", "text", "automatic"})
        un == LastIx(os, {"unit", "unitshow"})
        mj == LastIx(os, {"majorgrid", "majorgridline"})
        mn == LastIx(os, {"minorgrid", "minorgridline"})
    IN [d EXCEPT !.type = IF HasK(os, "date") THEN (IF LastV(os, "date", FALSE) THEN "Date" ELSE "Category") ELSE @,
                 !.auto = IF au = 0 THEN @ ELSE IF os[au].k = "date" THEN ~os[au].v ELSE os[au].v,
                 !.between = LastV(os, "between", @), !.cross = LastV(os, "crossing", @), !.hidden = LastV(os, "hidden", @),
                 !.lbl = LastV(os, "labelpos", @), !.tick = LastV(os, "majortick", @),
                 !.grid = IF mj = 0 THEN @ ELSE os[mj].k = "majorgridline" \/ os[mj].v = TRUE]
       @@ [os |-> os, rev |-> HasK(os, "reverse"),
           mgrid |-> mn # 0 /\ (os[mn].k = "minorgridline" \/ os[mn].v = TRUE),
           unitshow |-> un # 0 /\ (os[un].k = "unit" \/ os[un].v = TRUE)]

Opposite(p) == CASE p = "b" -> "t" [] p = "t" -> "b" [] p = "l" -> "r" [] OTHER -> "l"
GridP(p, on, os, k) == When(on, One(p, "") \cup When(HasK(os, k), Under(p \o "/line", LineP(LastV(os, k, << >>)))))
\* What every axis has; num: the number format of axes not given one.
AxisP(st, own, other, kind, num) ==
    LET os == own.os
        maxd == LastIx(os, {"max", "maxdate"})
        mind == LastIx(os, {"min", "mindate"})
        scaled == own.type # "Category"
        log == LastOk(os, "log", 0, LAMBDA v : v >= 2)
        nf == LastV(os, "numfmt", "")
    IN One("", kind)
       \cup When(scaled /\ log > 0, One("/logBase", S(log)))
       \cup When(own.rev, One("/orientation", "maxMin"))
       \cup When(scaled /\ maxd # 0, One("/max", os[maxd].v.t)) \cup When(scaled /\ mind # 0, One("/min", os[mind].v.t))
       \cup When(own.hidden, One("/delete", "1"))
       \cup One("/axPos", IF other.rev \/ other.cross[1] = "max" THEN Opposite(own.pos) ELSE own.pos)
       \cup GridP("/majorGridlines", own.grid, os, "majorgridline") \cup GridP("/minorGridlines", own.mgrid, os, "minorgridline")
       \cup Under("/title", TitleP(st, os, "name", "", "namefont", "layout", "", own.rot))
       \cup (IF nf # "" THEN One("/numFmt", nf \o "|0") ELSE When(num # "", One("/numFmt", num \o "|1")))
       \cup When(own.tick # "", One("/majorTickMark", own.tick)) \cup When(HasK(os, "minortick"), One("/minorTickMark", LastV(os, "minortick", "")))
       \cup When(own.lbl # "nextTo", One("/tickLblPos", own.lbl))
       \cup FormatOf(os, "format") \cup FontOf(os, "font", TRUE)
\* Where the axis crosses the other one, which is a setting of the other one.
CrossP(other, value) ==
    CASE other.cross[1] \in {"min", "max"} -> One("/crosses", other.cross[1])
      [] other.cross[1] = "at" -> One("/crossesAt", other.cross[2].t)
      [] other.cross[1] = "category" /\ value -> One("/crossesAt", S(other.cross[2]))
      [] OTHER -> {}
UnitsP(own) ==
    LET os == own.os
        mj == LastOk(os, "major", [m |-> -1], LAMBDA v : v.m >= 0)
        mn == LastOk(os, "minor", [m |-> -1], LAMBDA v : v.m >= 0)
    IN When(mj.m >= 0, One("/majorUnit", mj.t)) \cup When(mn.m >= 0, One("/minorUnit", mn.t))
SkipP(own) ==
    LET l == LastV(own.os, "labelint", 0) t == LastV(own.os, "tickint", 0) IN
    When(l > 1, One("/tickLblSkip", S(l))) \cup When(t > 1, One("/tickMarkSkip", S(t)))
ValAx(st, own, other, num) ==
    LET unit == LastV(own.os, "unit", "none") IN
    AxisP(st, own, other, "valAx", num) \cup CrossP(other, TRUE)
    \cup One("/crossBetween", IF other.between THEN "between" ELSE "midCat")
    \cup When(own.type # "Category", UnitsP(own))
    \cup When(unit # "none", One("/builtInUnit", unit) \cup When(own.unitshow, One("/dispUnitsLbl", "")))
CatAx(st, own, other, num, crosses) ==
    AxisP(st, own, other, "catAx", IF num THEN "General" ELSE "") \cup When(crosses \/ ~own.hidden, CrossP(other, FALSE))
    \cup When(~own.auto, One("/auto", "1"))
    \cup When(LastV(own.os, "align", "ctr") # "ctr", One("/lblAlgn", LastV(own.os, "align", "ctr")))
    \cup SkipP(own)
DateAx(st, own, other, num, crosses) ==
    AxisP(st, own, other, "dateAx", IF num THEN "dd/mm/yyyy" ELSE "") \cup When(crosses \/ ~own.hidden, CrossP(other, FALSE))
    \cup When(own.auto, One("/auto", "1"))
    \cup UnitsP(own)
    \cup When(HasK(own.os, "majordate"), One("/majorTimeUnit", LastV(own.os, "majordate", "")))
    \cup When(HasK(own.os, "minordate"), One("/minorTimeUnit", LastV(own.os, "minordate", "")))

\* Whether categories are numbers: those of the last series that has any.
NumericCats(st, ch) ==
    LET w == SelectSeq(Written(ch), LAMBDA k : Slot(ch.series[k].os, "categories").ok) IN
    w # << >> /\ DataType(Data(st, Slot(ch.series[w[Len(w)]].os, "categories"))) # "str"
PairP(st, ch, g, a, b, pa, pb) ==
    LET u == AxisOf(ch, IF g = "Bar" THEN b ELSE a)
        v == AxisOf(ch, IF g = "Bar" THEN a ELSE b)
        crosses == GroupOf(ch.type) \notin {"Area", "Bar", "Stock"}
        num == DefaultNum(ch.type)
        cats == NumericCats(st, ch)
    IN IF Round(g) THEN {}
       ELSE Under(pb, ValAx(st, v, u, num))
            \cup Under(pa, IF g = "Scatter" THEN ValAx(st, u, v, num)
                           ELSE IF AxisOf(ch, "x").type = "Date" THEN DateAx(st, u, v, cats, crosses) ELSE CatAx(st, u, v, cats, crosses))
AxesP(st, ch) ==
    LET second == InGroup(ch, TRUE) # {} \/ (HasCombined(ch) /\ InGroup(Combined(ch), TRUE) # {}) IN
    PairP(st, ch, GroupOf(ch.type), "x", "y", "x", "y")
    \cup When(second, PairP(st, ch, GroupOf((IF HasCombined(ch) THEN Combined(ch) ELSE ch).type), "x2", "y2", "x2", "y2"))

----------------------------------------------------------------------------
(* The whole chart.                                                           *)
\* Entries of the legend: the series in the order they are written, then
\* their trendlines.
Deleted(ch) ==
    LET os == ch.legend
        mine(c) == LET w == Written(c) IN [k \in DOMAIN w |-> c.series[w[k]].os]
        all == mine(ch) \o (IF HasCombined(ch) THEN mine(Combined(ch)) ELSE << >>)
        trend(o) == LastV(o, "trendline", << >>)
        lined == SelectSeq([k \in DOMAIN all |-> trend(all[k])], LAMBDA t : LastV(t, "type", <<"none", 0>>)[1] # "none")
        own == LastV(os, "delete", << >>)
    IN IF own # << >> THEN Range(own)
       ELSE {k - 1 : k \in {j \in DOMAIN all : LastV(all[j], "delleg", FALSE)}}
            \cup {Len(all) + k - 1 : k \in {j \in DOMAIN lined : LastV(lined[j], "delleg", FALSE)}}
LegendP(ch) ==
    LET os == ch.legend IN
    When(~HasK(os, "hidden"),
         One("legend", LastV(os, "position", "r"))
         \cup {<<"legend/del" \o S(k), "1">> : k \in Deleted(ch)}
         \cup Under("legend", LayoutP(LastV(os, "layout", << >>), TRUE, FALSE) \cup Shown(os, "overlay", "/overlay")
                               \cup FormatOf(os, "format") \cup FontOf(os, "font", FALSE)))
TableP(os) ==
    One("", "")
    \cup When(LastV(os, "horizontal", TRUE), One("/showHorzBorder", "1")) \cup When(LastV(os, "vertical", TRUE), One("/showVertBorder", "1"))
    \cup When(LastV(os, "outline", TRUE), One("/showOutline", "1")) \cup Shown(os, "keys", "/showKeys")
    \cup FormatOf(os, "format") \cup FontOf(os, "font", FALSE)

ChartP(st, ch) ==
    LET os == ch.set
        parts == Parts(ch)
        style == LastOk(os, "style", 2, LAMBDA v : v \in 1 .. 48)
        count(c) == Len(c.series)
        series(c, base, gbase) ==
            LET w == Written(c) np == Cardinality(InGroup(c, FALSE)) IN
            UNION {LET p == "s" \o S(base + k - 1) s == c.series[w[k]] IN
                   One(p, "g" \o S(gbase + (IF OnSecond(s) /\ np > 0 THEN 2 ELSE 1))) \cup Under(p, SeriesP(st, c, s)) : k \in DOMAIN w}
        ng == (IF InGroup(ch, FALSE) # {} THEN 1 ELSE 0) + (IF InGroup(ch, TRUE) # {} THEN 1 ELSE 0)
    IN When(style # 2, One("style", S(style)))
       \cup (IF HasK(ch.title, "hidden") THEN One("autoTitleDeleted", "1")
             ELSE Under("title", TitleP(st, ch.title, "name", "format", "font", "layout", "overlay", 360)))
       \cup UNION {Under("g" \o S(k), GroupP(parts[k][1], parts[k][2])) : k \in DOMAIN parts}
       \cup series(ch, 0, 0) \cup (IF HasCombined(ch) THEN series(Combined(ch), count(ch), ng) ELSE {})
       \cup AxesP(st, ch)
       \cup When(HasK(os, "table"), Under("dTable", TableP(LastV(os, "table", << >>))))
       \cup Under("plot", FormatOf(os, "plot") \cup LayoutP(LastV(os, "plotlayout", << >>), TRUE, TRUE))
       \cup Under("area", FormatOf(os, "area"))
       \cup LegendP(ch)
       \cup When(~HasK(os, "hiddendata"), One("plotVisOnly", "1"))
       \cup When(HasK(os, "empty"), One("dispBlanksAs", LastV(os, "empty", "")))
       \cup When(HasK(os, "naempty"), One("dispNaAsBlank", "1"))

----------------------------------------------------------------------------
(* Checks made when a chart is inserted and when the workbook is saved.      *)
RangeFault(g) ==
    IF NameErr(g.sheet) # "" THEN NameErr(g.sheet)
    ELSE IF g.r > g.r2 \/ g.c > g.c2 \/ ~InGrid(g.r, g.c) \/ ~InGrid(g.r2, g.c2) THEN "ChartError" ELSE ""
SeriesFault(t, os) ==
    LET vals == Slot(os, "values")
        cats == Slot(os, "categories")
        tr == LastV(LastV(os, "trendline", << >>), "type", <<"none", 0>>)
    IN IF ~vals.ok \/ (GroupOf(t) = "Scatter" /\ ~cats.ok) THEN "ChartError"
       ELSE IF RangeFault(vals) # "" THEN RangeFault(vals)
       ELSE IF cats.ok /\ RangeFault(cats) # "" THEN RangeFault(cats)
       ELSE IF (tr[1] = "poly" /\ tr[2] \notin 2 .. 6) \/ (tr[1] = "movingAvg" /\ tr[2] \notin 2 .. 4) THEN "ChartError" ELSE ""
RECURSIVE ChartFault(_)
ChartFault(ch) ==
    LET bad == {k \in DOMAIN ch.series : SeriesFault(ch.type, ch.series[k].os) # ""} IN
    IF ch.series = << >> THEN "ChartError"
    ELSE IF bad # {} THEN SeriesFault(ch.type, ch.series[SetMin(bad)].os)
    ELSE IF HasCombined(ch) THEN ChartFault(Combined(ch)) ELSE ""

Customs(os) == LET e == {i \in DOMAIN os : os[i].k = "type" /\ os[i].v[1] = "cust"} IN
               IF e = {} THEN {} ELSE LET v == os[SetMax(e)].v IN {SlotRange(v[2]), SlotRange(v[3])}
OwnRanges(ch) ==
    {Slot(ch.title, "name"), Slot(ch.x, "name"), Slot(ch.y, "name"), Slot(ch.x2, "name"), Slot(ch.y2, "name")}
    \cup UNION {LET os == ch.series[k].os ls == LastV(os, "labels", << >>) IN
                {Slot(os, "name"), Slot(os, "values"), Slot(os, "categories")}
                \cup {Slot(ls[j], "text") : j \in DOMAIN ls}
                \cup Customs(LastV(os, "yerr", << >>)) \cup Customs(LastV(os, "xerr", << >>)) : k \in DOMAIN ch.series}
Unknown(st, ch) == \E g \in OwnRanges(ch) \cup (IF HasCombined(ch) THEN OwnRanges(Combined(ch)) ELSE {}) : g.ok /\ SheetsNamed(st, g.sheet) = {}

----------------------------------------------------------------------------
(* State: "sheets" is that of the grid; "cnames" and "charts" run parallel.   *)
ChartsInit(cs) == GridInit(cs) @@ [cnames |-> << >>, charts |-> << >>]
ChartsStep(st, o) ==
    CASE o.op = "add_sheet" ->
           LET r == GridStep(st, o)
               kind == {n \in DOMAIN st.sheets : (st.sheets[n].mode = "chart") = (o.mode = "chart")}
           IN [r EXCEPT !.st.cnames = Append(@, << >>), !.st.charts = Append(@, Empty)]
      [] o.op = "setname" -> Ok([st EXCEPT !.cnames[o.s + 1] = o.nc])
      [] o.op = "chartx" ->
           LET sh == st.sheets[o.s + 1]
               k == IF sh.mode = "chart" THEN <<0, 0>> ELSE <<o.r, o.c>>
           IN IF ~InGrid(o.r, o.c) THEN Err(st, "RowColumnLimitError")
              ELSE IF ChartFault(o.cx) # "" THEN Err(st, ChartFault(o.cx))
              ELSE Ok([st EXCEPT !.charts[o.s + 1] = Put(@, k, o.cx)])
      [] o.op = "save" /\ \E n \in DOMAIN st.sheets : st.sheets[n].mode = "chart" /\ st.charts[n] = Empty -> Err(st, "ChartError")
      [] o.op = "save" /\ \E n \in DOMAIN st.sheets : \E k \in DOMAIN st.charts[n] : Unknown(st, st.charts[n][k]) ->
           Err(st, "UnknownWorksheetNameOrIndex")
      [] OTHER -> GridStep(st, o)

ChartFactsOf(st) ==
    UNION {UNION {LET id == S(n) \o "!" \o S(k[1]) \o "," \o S(k[2]) IN
                  {<<"ch", id, x[1], x[2]>> : x \in ChartP(st, st.charts[n][k])} : k \in DOMAIN st.charts[n]} : n \in DOMAIN st.sheets}
ChartsExpect(cs, st, o) ==
    LET view == Range(cs.view) IN
    (IF "chart" \in view THEN ChartFactsOf(st) ELSE {}) \cup GridFacts(st, view \ {"chart"})
=============================================================================
