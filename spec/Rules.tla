------------------------------- MODULE Rules -------------------------------
(* Conditional formats, data validations and sparklines.                      *)
EXTENDS Grid, Refs, Formulas

\* Per worksheet: ranges of conditional formats in the order they were first
\* used, the rules of each, the validation of each range, sparkline groups.
NoRules == [order |-> << >>, cf |-> Empty, dv |-> Empty, sl |-> << >>]
RulesInit(cs) == GridInit(cs) @@ [rules |-> << >>]

----------------------------------------------------------------------------
(* Where a rule applies.  Several ranges can be given as text.                *)
SqText(cs) == Join([k \in DOMAIN SelectSeq(cs, LAMBDA ch : ch # "$") |->
                    LET ch == SelectSeq(cs, LAMBDA x : x # "$")[k] IN IF ch = "," THEN " " ELSE ch])
SqOf(o) == IF Has(o, "multic") /\ o.multic # << >> THEN SqText(o.multic) ELSE RangeRef(o.r, o.c, o.r2, o.c2)
\* The cell that formulas refer to: the first one.
AnchorOf(sq) == LET ks == {k \in 1 .. Len(sq) : SubSeq(sq, k, k) \in {" ", ":"}} IN
                IF ks = {} THEN sq ELSE SubSeq(sq, 1, SetMin(ks) - 1)
PlaceErr(o) == IF ~InGrid(o.r, o.c) \/ ~InGrid(o.r2, o.c2) THEN "RowColumnLimitError"
               ELSE IF o.r > o.r2 \/ o.c > o.c2 THEN "RowColumnOrderError" ELSE ""

----------------------------------------------------------------------------
(* Values in rules: numbers x, texts and formulas as characters cs.           *)
RECURSIVE DoubleQuotes(_)
DoubleQuotes(cs) == IF cs = << >> THEN << >> ELSE (IF cs[1] = "%22;" THEN <<"%22;", "%22;">> ELSE <<cs[1]>>) \o DoubleQuotes(Tail(cs))
Q == "%22;"
Literal(cs) == Q \o Join(DoubleQuotes(cs)) \o Q
CellValue(v) ==
    CASE v.t = "s" -> IF Len(v.cs) > 1 /\ v.cs[1] = Q /\ v.cs[Len(v.cs)] = Q THEN Join(v.cs) ELSE Literal(v.cs)
      [] v.t = "f" -> Stored(v.cs)[1]
      [] OTHER -> v.x
\* Thresholds.  Texts are no thresholds; pct: a number outside of 0 .. 100.
Usable(e) == e.val.t # "s" /\ ~(e.ty \in {"percent", "percentile"} /\ e.val.pct)
\* The type and value a setter leaves.  "never": types it ignores.
Threshold(w, e, never) == IF Usable(e) /\ e.ty \notin never THEN <<e.ty, CellValue(e.val)>> ELSE w
Vo(n, w) == IF w[1] \in {"min", "max", "autoMin", "autoMax"} THEN <<"vo", S(n), w[1], "", "1">> ELSE <<"vo", S(n), w[1], w[2], "1">>

\* ---- color scales: three thresholds and colors, of which two may be used ----
Setting(o, k) == SelectSeq(o.set, LAMBDA e : e.k = k)
Last(s, d) == IF s = << >> THEN d ELSE s[Len(s)]
ColorSet(o, k, d) == LET s == Setting(o, k) IN IF s = << >> THEN d ELSE ColorOf(s[Len(s)].c)
ThresholdSet(o, k, d, never) == FoldL(LAMBDA w, e : Threshold(w, e, never), d, Setting(o, k))
ENDS == {"min", "max", "auto"}
ScaleFacts(o) ==
    LET three == o.k = "color3"
        lo == ThresholdSet(o, "min", <<"min", "">>, ENDS)
        mi == ThresholdSet(o, "mid", <<"percentile", "50.0">>, ENDS)
        hi == ThresholdSet(o, "max", <<"max", "">>, ENDS)
        vs == IF three THEN <<lo, mi, hi>> ELSE <<lo, hi>>
        cs == IF three THEN <<ColorSet(o, "minc", "F8696B"), ColorSet(o, "midc", "FFEB84"), ColorSet(o, "maxc", "63BE7B")>>
              ELSE <<ColorSet(o, "minc", "FFEF9C"), ColorSet(o, "maxc", "63BE7B")>>
    IN {Vo(n, vs[n]) : n \in DOMAIN vs} \cup {<<"color", S(n), cs[n]>> : n \in DOMAIN cs}

\* ---- data bars ----
BarInit == [min |-> <<"auto", "">>, max |-> <<"auto", "">>, fill |-> "638EC6", border |-> "638EC6", nfill |-> "FF0000", nborder |-> "FF0000",
            axisc |-> "000000", solid |-> FALSE, off |-> FALSE, only |-> FALSE, dir |-> "context", axis |-> "automatic", classic |-> FALSE]
BarSet(b, e) ==
    CASE e.k = "min" -> [b EXCEPT !.min = Threshold(@, e, {"max"})]
      [] e.k = "max" -> [b EXCEPT !.max = Threshold(@, e, {"min"})]
      [] e.k = "fill" -> [b EXCEPT !.fill = ColorOf(e.c), !.border = ColorOf(e.c)]
      [] e.k = "border" -> [b EXCEPT !.border = ColorOf(e.c)]
      [] e.k = "nfill" -> [b EXCEPT !.nfill = ColorOf(e.c), !.nborder = ColorOf(e.c)]
      [] e.k = "nborder" -> [b EXCEPT !.nborder = ColorOf(e.c)]
      [] e.k = "axisc" -> [b EXCEPT !.axisc = ColorOf(e.c)]
      [] e.k = "solid" -> [b EXCEPT !.solid = e.b]
      [] e.k = "off" -> [b EXCEPT !.off = e.b]
      [] e.k = "only" -> [b EXCEPT !.only = e.b]
      [] e.k = "dir" -> [b EXCEPT !.dir = e.c]
      [] e.k = "axis" -> [b EXCEPT !.axis = e.c]
      [] e.k = "classic" -> [b EXCEPT !.classic = TRUE, !.min = IF @[1] = "auto" THEN <<"min", "">> ELSE @, !.max = IF @[1] = "auto" THEN <<"max", "">> ELSE @]
BarFacts(o) ==
    LET b == FoldL(BarSet, BarInit, o.set)
        std(w, end) == IF w[1] = "auto" THEN <<end, "">> ELSE w
        ext(w, end) == IF w[1] = "auto" THEN <<end, "">> ELSE w
        x(n, w) == <<"xvo">> \o Tail(Vo(n, w))
    IN {<<"showValue", NAT(~b.only)>>, Vo(1, std(b.min, "min")), Vo(2, std(b.max, "max")), <<"color", "1", b.fill>>}
       \cup (IF b.classic THEN {}
             ELSE {<<"length", "0", "100">>, <<"border", NAT(~b.off)>>, <<"gradient", NAT(~b.solid)>>, <<"direction", b.dir>>, <<"axis", b.axis>>,
                   x(1, ext(b.min, "autoMin")), x(2, ext(b.max, "autoMax")), <<"negativeFillColor", b.nfill>>}
                  \cup (IF b.off THEN {} ELSE {<<"borderColor", b.border>>, <<"negativeBorderColor", b.nborder>>})
                  \cup (IF b.axis = "none" THEN {} ELSE {<<"axisColor", b.axisc>>}))

\* ---- icon sets ----
SizeOf(name) == LET d == SubSeq(name, 1, 1) IN IF d = "3" THEN 3 ELSE IF d = "4" THEN 4 ELSE 5
Percents(n) == CASE n = 3 -> <<"0.0", "33.0", "67.0">> [] n = 4 -> <<"0.0", "25.0", "50.0", "75.0">> [] n = 5 -> <<"0.0", "20.0", "40.0", "60.0", "80.0">>
Icon0 == [ty |-> "percent", val |-> "0.0", gt |-> FALSE, set |-> "", n |-> 0, none |-> FALSE, custom |-> FALSE]
IconSet1(i, e) ==
    CASE e.k = "rule" -> IF Usable(e) /\ e.ty # "max" THEN [i EXCEPT !.ty = IF e.ty \in ENDS THEN "percent" ELSE e.ty, !.val = CellValue(e.val)] ELSE i
      [] e.k = "icon" -> IF e.n >= SizeOf(e.ty) THEN i ELSE [i EXCEPT !.set = e.ty, !.n = e.n, !.custom = TRUE]
      [] e.k = "none" -> [i EXCEPT !.none = e.b, !.custom = TRUE]
      [] e.k = "gt" -> [i EXCEPT !.gt = e.b]
IconOf(es) == FoldL(IconSet1, Icon0, es)
IconsInit == [ty |-> "3TrafficLights1", rev |-> FALSE, only |-> FALSE, icons |-> << >>, custom |-> FALSE]
IconsSet(s, e) ==
    CASE e.k = "type" -> [s EXCEPT !.ty = e.ty, !.icons = LET p == Percents(SizeOf(e.ty)) IN [k \in DOMAIN p |-> [Icon0 EXCEPT !.val = p[k]]]]
      [] e.k = "reverse" -> [s EXCEPT !.rev = e.b]
      [] e.k = "only" -> [s EXCEPT !.only = e.b]
      [] e.k = "icons" -> LET is == [k \in DOMAIN e.icons |-> LET i == IconOf(e.icons[k]) IN
                                     IF k = 1 THEN [i EXCEPT !.ty = "percent", !.val = "0.0", !.gt = FALSE] ELSE i]
                          IN [s EXCEPT !.icons = is, !.custom = @ \/ \E k \in DOMAIN is : is[k].custom]
Icons(o) == FoldL(IconsSet, IconsInit, o.set)
IconFacts(o) ==
    LET s == Icons(o) IN
    {<<"set", s.ty>>, <<"showValue", NAT(~s.only)>>, <<"reverse", NAT(s.rev)>>}
    \cup {<<"vo", S(k), s.icons[k].ty, s.icons[k].val, NAT(~s.icons[k].gt)>> : k \in DOMAIN s.icons}
    \cup {<<"icon", S(k)>> \o (LET i == s.icons[k] IN
                               IF s.custom /\ i.none THEN <<"NoIcons", "0">>
                               ELSE IF s.custom /\ i.set # "" THEN <<i.set, S(i.n)>> ELSE <<s.ty, S(k - 1)>>) : k \in DOMAIN s.icons}

\* ---- rules with formulas ----
TextFormula(o, a) ==
    CASE o.rule = "contains" -> "NOT(ISERROR(SEARCH(" \o Literal(o.textc) \o "," \o a \o ")))"
      [] o.rule = "not" -> "ISERROR(SEARCH(" \o Literal(o.textc) \o "," \o a \o "))"
      [] o.rule = "begins" -> "LEFT(" \o a \o "," \o S(o.textu) \o ")=" \o Literal(o.textc)
      [] o.rule = "ends" -> "RIGHT(" \o a \o "," \o S(o.textu) \o ")=" \o Literal(o.textc)
TextType == [contains |-> <<"containsText", "containsText">>, not |-> <<"notContainsText", "notContains">>,
             begins |-> <<"beginsWith", "beginsWith">>, ends |-> <<"endsWith", "endsWith">>]
DateFormula(p, a) ==
    CASE p = "yesterday" -> "FLOOR(" \o a \o ",1)=TODAY()-1"
      [] p = "today" -> "FLOOR(" \o a \o ",1)=TODAY()"
      [] p = "tomorrow" -> "FLOOR(" \o a \o ",1)=TODAY()+1"
      [] p = "last7Days" -> "AND(TODAY()-FLOOR(" \o a \o ",1)<=6,FLOOR(" \o a \o ",1)<=TODAY())"
      [] p = "lastWeek" -> "AND(TODAY()-ROUNDDOWN(" \o a \o ",0)>=(WEEKDAY(TODAY())),TODAY()-ROUNDDOWN(" \o a \o ",0)<(WEEKDAY(TODAY())+7))"
      [] p = "thisWeek" -> "AND(TODAY()-ROUNDDOWN(" \o a \o ",0)<=WEEKDAY(TODAY())-1,ROUNDDOWN(" \o a \o ",0)-TODAY()<=7-WEEKDAY(TODAY()))"
      [] p = "nextWeek" -> "AND(ROUNDDOWN(" \o a \o ",0)-TODAY()>(7-WEEKDAY(TODAY())),ROUNDDOWN(" \o a \o ",0)-TODAY()<(15-WEEKDAY(TODAY())))"
      [] p = "lastMonth" -> "AND(MONTH(" \o a \o ")=MONTH(TODAY())-1,OR(YEAR(" \o a \o ")=YEAR(TODAY()),AND(MONTH(" \o a \o ")=1,YEAR(" \o a \o ")=YEAR(TODAY())-1)))"
      [] p = "thisMonth" -> "AND(MONTH(" \o a \o ")=MONTH(TODAY()),YEAR(" \o a \o ")=YEAR(TODAY()))"
      [] p = "nextMonth" -> "AND(MONTH(" \o a \o ")=MONTH(TODAY())+1,OR(YEAR(" \o a \o ")=YEAR(TODAY()),AND(MONTH(" \o a \o ")=12,YEAR(" \o a \o ")=YEAR(TODAY())+1)))"
Average(r) == CASE r = "" -> <<"1", "0", "0">> [] r = "above" -> <<"1", "0", "0">> [] r = "below" -> <<"0", "0", "0">>
                [] r = "eqabove" -> <<"1", "1", "0">> [] r = "eqbelow" -> <<"0", "1", "0">>
                [] OTHER -> <<IF SubSeq(r, 2, Len(r)) = "above" THEN "1" ELSE "0", "0", SubSeq(r, 1, 1)>>
Top(o) == <<NAT(o.rule \in {"topp", "bottomp"}), NAT(o.rule \in {"bottom", "bottomp"}), S(o.n)>>

CfType(o) ==
    CASE o.k = "cell" -> "cellIs"
      [] o.k = "blank" -> IF o.invert THEN "notContainsBlanks" ELSE "containsBlanks"
      [] o.k = "error" -> IF o.invert THEN "notContainsErrors" ELSE "containsErrors"
      [] o.k = "dup" -> IF o.invert THEN "uniqueValues" ELSE "duplicateValues"
      [] o.k = "formula" -> "expression" [] o.k = "average" -> "aboveAverage" [] o.k = "top" -> "top10"
      [] o.k = "text" -> TextType[o.rule][1] [] o.k = "date" -> "timePeriod"
      [] o.k \in {"color2", "color3"} -> "colorScale" [] o.k = "bar" -> "dataBar" [] o.k = "icons" -> "iconSet"
F1(t) == {<<"formula", "1", t>>}
CfFacts(o, a) ==
    CASE o.k = "cell" -> {<<"operator", o.rule>>} \cup {<<"formula", S(n), CellValue(o.vals[n])>> : n \in DOMAIN o.vals}
      [] o.k = "blank" -> F1("LEN(TRIM(" \o a \o "))" \o (IF o.invert THEN ">0" ELSE "=0"))
      [] o.k = "error" -> F1(IF o.invert THEN "NOT(ISERROR(" \o a \o "))" ELSE "ISERROR(" \o a \o ")")
      [] o.k = "dup" -> {}
      [] o.k = "formula" -> F1(Stored(o.fc)[1])
      [] o.k = "average" -> {<<"average">> \o Average(o.rule)}
      [] o.k = "top" -> {<<"top">> \o Top(o)}
      [] o.k = "text" -> F1(TextFormula(o, a)) \cup {<<"operator", TextType[o.rule][2]>>, <<"text", Join(o.textc)>>}
      [] o.k = "date" -> F1(DateFormula(o.period, a)) \cup {<<"period", o.period>>}
      [] o.k \in {"color2", "color3"} -> ScaleFacts(o)
      [] o.k = "bar" -> BarFacts(o)
      [] o.k = "icons" -> IconFacts(o)
Formats == {"cell", "blank", "error", "dup", "formula", "average", "top", "text", "date"}
RuleFacts(o, a) ==
    CfFacts(o, a) \cup {<<"stop", NAT(Flag(o, "stop"))>>}
    \cup (IF o.k \in Formats /\ Flag(o, "hf") THEN {<<"dxf">> \o y : y \in DxfFacts(FmtOf(o.f)) \cup {<<"", "">>}} ELSE {})
CfBad(o) ==
    CASE o.k \in {"cell", "text"} -> o.rule = ""
      [] o.k = "formula" -> o.fc = << >> \/ Stored(o.fc)[1] = ""
      [] o.k = "top" -> o.n < 1 \/ o.n > (IF o.rule \in {"topp", "bottomp"} THEN 100 ELSE 1000)
      [] o.k = "icons" -> LET s == Icons(o) IN Len(s.icons) # SizeOf(s.ty)
      [] OTHER -> FALSE

----------------------------------------------------------------------------
(* Data validations: settings in order, the last one of each kind counts.     *)
DvInit == [k |-> "any", rule |-> << >>, blank |-> TRUE, dropdown |-> TRUE, showinput |-> TRUE, showerror |-> TRUE,
           intitle |-> "", inmsg |-> "", errtitle |-> "", errmsg |-> "", style |-> "stop", multic |-> << >>, bad |-> FALSE]
RECURSIVE Commas(_)
Commas(items) == IF items = << >> THEN << >> ELSE IF Len(items) = 1 THEN items[1] ELSE items[1] \o <<",">> \o Commas(Tail(items))
DvSet(d, e) ==
    IF d.bad THEN d
    ELSE CASE e.k \in {"whole", "decimal", "date", "time", "textLength"} ->
                [d EXCEPT !.k = e.k, !.rule = <<e.rule, [n \in DOMAIN e.vals |-> CellValue(e.vals[n])]>>]
           [] e.k = "list" /\ Has(e, "fc") -> [d EXCEPT !.k = "list", !.rule = <<"", <<Stored(e.fc)[1]>>>>]
           [] e.k = "list" -> LET t == Commas([n \in DOMAIN e.itemsc |-> DoubleQuotes(e.itemsc[n])]) IN
                              IF Len(t) > 255 THEN [d EXCEPT !.bad = TRUE]
                              ELSE [d EXCEPT !.k = "list", !.rule = <<"", <<Q \o Join(t) \o Q>>>>]
           [] e.k = "custom" -> [d EXCEPT !.k = "custom", !.rule = <<"", <<Stored(e.fc)[1]>>>>]
           [] e.k = "any" -> [d EXCEPT !.k = "any"]
           [] e.k \in {"intitle", "errtitle"} /\ e.vn > 32 -> [d EXCEPT !.bad = TRUE]
           [] e.k \in {"inmsg", "errmsg"} /\ e.vn > 255 -> [d EXCEPT !.bad = TRUE]
           [] e.k = "blank" -> [d EXCEPT !.blank = e.b]
           [] e.k = "dropdown" -> [d EXCEPT !.dropdown = e.b]
           [] e.k = "showinput" -> [d EXCEPT !.showinput = e.b]
           [] e.k = "showerror" -> [d EXCEPT !.showerror = e.b]
           [] e.k = "intitle" -> [d EXCEPT !.intitle = e.vx]
           [] e.k = "inmsg" -> [d EXCEPT !.inmsg = e.vx]
           [] e.k = "errtitle" -> [d EXCEPT !.errtitle = e.vx]
           [] e.k = "errmsg" -> [d EXCEPT !.errmsg = e.vx]
           [] e.k = "style" -> [d EXCEPT !.style = e.v]
           [] e.k = "multi" -> [d EXCEPT !.multic = e.vc]
\* Checks nothing and says nothing.
Idle(d) == d.k = "any" /\ d.intitle = "" /\ d.inmsg = "" /\ d.errtitle = "" /\ d.errmsg = ""
DvFacts(i, sq, d) ==
    LET f(k, v) == IF v = "" THEN {} ELSE {<<k, v>>}
        any == d.k = "any"
        all == {<<"type", IF any THEN "none" ELSE d.k, IF any \/ d.k \in {"list", "custom"} THEN "" ELSE d.rule[1]>>,
                <<"allowBlank", NAT(d.blank)>>, <<"showDropDown", NAT(~d.dropdown)>>, <<"showInputMessage", NAT(d.showinput)>>,
                <<"showErrorMessage", NAT(d.showerror)>>}
               \cup f("errorTitle", d.errtitle) \cup f("error", d.errmsg) \cup f("promptTitle", d.intitle) \cup f("prompt", d.inmsg)
               \cup (IF any THEN {} ELSE {<<"style", d.style>>} \cup {<<"formula", S(n), d.rule[2][n]>> : n \in DOMAIN d.rule[2]})
    IN {<<"dv", i, sq>> \o x : x \in all}

----------------------------------------------------------------------------
(* Sparklines.                                                                *)
\* Series, negative points, markers, first, last, high, low.
SparkStyle == <<
    <<"theme4.5", "theme5.0", "theme4.5", "theme4.3", "theme4.3", "theme4.0", "theme4.0">>,
    <<"theme5.5", "theme6.0", "theme5.5", "theme5.3", "theme5.3", "theme5.0", "theme5.0">>,
    <<"theme6.5", "theme7.0", "theme6.5", "theme6.3", "theme6.3", "theme6.0", "theme6.0">>,
    <<"theme7.5", "theme8.0", "theme7.5", "theme7.3", "theme7.3", "theme7.0", "theme7.0">>,
    <<"theme8.5", "theme9.0", "theme8.5", "theme8.3", "theme8.3", "theme8.0", "theme8.0">>,
    <<"theme9.5", "theme4.0", "theme9.5", "theme9.3", "theme9.3", "theme9.0", "theme9.0">>,
    <<"theme4.4", "theme5.0", "theme5.4", "theme5.4", "theme5.4", "theme5.4", "theme5.4">>,
    <<"theme5.4", "theme6.0", "theme6.4", "theme6.4", "theme6.4", "theme6.4", "theme6.4">>,
    <<"theme6.4", "theme7.0", "theme7.4", "theme7.4", "theme7.4", "theme7.4", "theme7.4">>,
    <<"theme7.4", "theme8.0", "theme8.4", "theme8.4", "theme8.4", "theme8.4", "theme8.4">>,
    <<"theme8.4", "theme9.0", "theme9.4", "theme9.4", "theme9.4", "theme9.4", "theme9.4">>,
    <<"theme9.4", "theme4.0", "theme4.4", "theme4.4", "theme4.4", "theme4.4", "theme4.4">>,
    <<"theme4.0", "theme5.0", "theme4.4", "theme4.4", "theme4.4", "theme4.4", "theme4.4">>,
    <<"theme5.0", "theme6.0", "theme5.4", "theme5.4", "theme5.4", "theme5.4", "theme5.4">>,
    <<"theme6.0", "theme7.0", "theme6.4", "theme6.4", "theme6.4", "theme6.4", "theme6.4">>,
    <<"theme7.0", "theme8.0", "theme7.4", "theme7.4", "theme7.4", "theme7.4", "theme7.4">>,
    <<"theme8.0", "theme9.0", "theme8.4", "theme8.4", "theme8.4", "theme8.4", "theme8.4">>,
    <<"theme9.0", "theme4.0", "theme9.4", "theme9.4", "theme9.4", "theme9.4", "theme9.4">>,
    <<"theme4.3", "theme0.5", "theme4.1", "theme4.4", "theme4.4", "theme4.5", "theme4.5">>,
    <<"theme5.3", "theme0.5", "theme5.1", "theme5.4", "theme5.4", "theme5.5", "theme5.5">>,
    <<"theme6.3", "theme0.5", "theme6.1", "theme6.4", "theme6.4", "theme6.5", "theme6.5">>,
    <<"theme7.3", "theme0.5", "theme7.1", "theme7.4", "theme7.4", "theme7.5", "theme7.5">>,
    <<"theme8.3", "theme0.5", "theme8.1", "theme8.4", "theme8.4", "theme8.5", "theme8.5">>,
    <<"theme9.3", "theme0.5", "theme9.1", "theme9.4", "theme9.4", "theme9.5", "theme9.5">>,
    <<"theme1.1", "theme1.3", "theme1.3", "theme1.3", "theme1.3", "theme1.3", "theme1.3">>,
    <<"theme1.2", "theme0.3", "theme0.3", "theme0.3", "theme0.3", "theme0.3", "theme0.3">>,
    <<"323232", "D00000", "D00000", "D00000", "D00000", "D00000", "D00000">>,
    <<"000000", "0070C0", "0070C0", "0070C0", "0070C0", "0070C0", "0070C0">>,
    <<"376092", "D00000", "D00000", "D00000", "D00000", "D00000", "D00000">>,
    <<"0070C0", "000000", "000000", "000000", "000000", "000000", "000000">>,
    <<"5F5F5F", "FFB620", "D70077", "5687C2", "359CEB", "56BE79", "FF5055">>,
    <<"5687C2", "FFB620", "D70077", "777777", "359CEB", "56BE79", "FF5055">>,
    <<"C6EFCE", "FFC7CE", "8CADD6", "FFDC47", "FFEB9C", "60D276", "FF5367">>,
    <<"00B050", "FF0000", "0070C0", "FFC000", "FFC000", "00B050", "FF0000">>,
    <<"theme3.0", "theme9.0", "theme8.0", "theme4.0", "theme5.0", "theme6.0", "theme7.0">>,
    <<"theme1.0", "theme9.0", "theme8.0", "theme4.0", "theme5.0", "theme6.0", "theme7.0">> >>
\* A range as given: cells of a worksheet, or text.
NoRange == [ok |-> FALSE]
RangeOf(e) == IF Has(e, "tc") THEN LET g == ParseRange(e.tc) IN IF g.ok /\ g.sheet = << >> THEN NoRange ELSE g
              ELSE IF e.sc = << >> THEN NoRange
              ELSE [ok |-> TRUE, sheet |-> e.sc, r |-> e.r, c |-> e.c, r2 |-> e.r2, c2 |-> e.c2]
DataErr(g) == IF NameErr(g.sheet) # "" THEN NameErr(g.sheet)
               ELSE IF g.r > g.r2 \/ g.c > g.c2 \/ g.r2 >= ROWMAX \/ g.c2 >= COLMAX THEN "ChartError" ELSE ""
RefText(g) == Quoted(g.sheet) \o "!" \o RangeRef(g.r, g.c, g.r2, g.c2)
SlInit == [range |-> NoRange, dates |-> NoRange, type |-> "line", high |-> FALSE, low |-> FALSE, first |-> FALSE, last |-> FALSE, negative |-> FALSE,
           markers |-> FALSE, axis |-> FALSE, hidden |-> FALSE, rtl |-> FALSE, empty |-> "gap", weight |-> "0.75", max |-> << >>, min |-> << >>,
           gmax |-> FALSE, gmin |-> FALSE, colorder |-> FALSE,
           cseries |-> "theme4.5", cnegative |-> "theme5.0", cmarkers |-> "theme4.5", cfirst |-> "theme4.3", clast |-> "theme4.3",
           chigh |-> "theme4.0", clow |-> "theme4.0"]
SlSet(x, e) ==
    CASE e.k = "range" -> [x EXCEPT !.range = RangeOf(e)]
      [] e.k = "dates" -> [x EXCEPT !.dates = RangeOf(e)]
      [] e.k \in {"type", "empty"} -> [x EXCEPT ![e.k] = e.v]
      [] e.k = "weight" -> [x EXCEPT !.weight = e.vf]
      [] e.k \in {"high", "low", "first", "last", "negative", "markers", "axis", "hidden", "rtl", "colorder"} -> [x EXCEPT ![e.k] = e.b]
      [] e.k = "cseries" -> [x EXCEPT !.cseries = e.c]
      [] e.k = "chigh" -> [x EXCEPT !.chigh = e.c, !.high = TRUE]
      [] e.k = "clow" -> [x EXCEPT !.clow = e.c, !.low = TRUE]
      [] e.k = "cfirst" -> [x EXCEPT !.cfirst = e.c, !.first = TRUE]
      [] e.k = "clast" -> [x EXCEPT !.clast = e.c, !.last = TRUE]
      [] e.k = "cnegative" -> [x EXCEPT !.cnegative = e.c, !.negative = TRUE]
      [] e.k = "cmarkers" -> [x EXCEPT !.cmarkers = e.c, !.markers = TRUE]
      \* A limit is one number, or that of the whole group.
      [] e.k = "max" -> [x EXCEPT !.max = <<e.vf>>, !.gmax = FALSE]
      [] e.k = "min" -> [x EXCEPT !.min = <<e.vf>>, !.gmin = FALSE]
      [] e.k = "gmax" -> [x EXCEPT !.gmax = e.b, !.max = IF e.b THEN << >> ELSE @]
      [] e.k = "gmin" -> [x EXCEPT !.gmin = e.b, !.min = IF e.b THEN << >> ELSE @]
      [] e.k = "style" -> IF e.n \notin DOMAIN SparkStyle THEN x
                          ELSE LET t == SparkStyle[e.n] IN
                               [x EXCEPT !.cseries = t[1], !.cnegative = t[2], !.cmarkers = t[3], !.cfirst = t[4], !.clast = t[5], !.chigh = t[6], !.clow = t[7]]
Rows(g) == g.r2 - g.r + 1
Cols(g) == g.c2 - g.c + 1
SlErr(o, x) ==
    LET group == o.op = "sparkgroup"
        cells == Max2(o.r2 - o.r, o.c2 - o.c) + 1
    IN IF ~InGrid(o.r, o.c) \/ ~InGrid(o.r2, o.c2) THEN "RowColumnLimitError"
       ELSE IF group /\ (o.r > o.r2 \/ o.c > o.c2) THEN "RowColumnOrderError"
       ELSE IF ~x.range.ok THEN "SparklineError"
       ELSE IF DataErr(x.range) # "" THEN DataErr(x.range)
       ELSE IF x.dates.ok /\ DataErr(x.dates) # "" THEN DataErr(x.dates)
       ELSE IF (Rows(x.range) = 1 \/ Cols(x.range) = 1) = group THEN "SparklineError"
       ELSE IF group /\ o.r # o.r2 /\ o.c # o.c2 THEN "SparklineError"
       ELSE IF group /\ cells \notin {Rows(x.range), Cols(x.range)} THEN "SparklineError"
       ELSE ""
\* The cells of a group and the data each one shows.
SlCells(o, g, colorder) ==
    IF o.op = "sparkline" THEN << <<RefText(g), Cell1(o.r, o.c)>> >>
    ELSE LET n == Max2(o.r2 - o.r, o.c2 - o.c) + 1
             want == IF colorder THEN Cols(g) ELSE Rows(g)
             rows == IF n = want THEN ~colorder ELSE colorder
             part(k) == IF rows THEN [g EXCEPT !.r = g.r + k - 1, !.r2 = g.r + k - 1] ELSE [g EXCEPT !.c = g.c + k - 1, !.c2 = g.c + k - 1]
         IN [k \in 1 .. n |-> <<RefText(part(k)), IF o.c = o.c2 THEN Cell1(o.r + k - 1, o.c) ELSE Cell1(o.r, o.c + k - 1)>>]
SlFacts(i, n, g) ==
    LET x == g[1]
        at == g[2]
        limit(k, own, grp) == {<<k, IF own # << >> THEN "custom" ELSE IF grp THEN "group" ELSE "individual", IF own # << >> THEN own[1] ELSE "">>}
        all == {<<"type", x.type>>, <<"empty", x.empty>>, <<"weight", x.weight>>, <<"dateAxis", NAT(x.dates.ok)>>,
                <<"displayXAxis", NAT(x.axis)>>, <<"displayHidden", NAT(x.hidden)>>, <<"rightToLeft", NAT(x.rtl)>>}
               \cup {<<k, NAT(x[k])>> : k \in {"markers", "high", "low", "first", "last", "negative"}}
               \cup limit("min", x.min, x.gmin) \cup limit("max", x.max, x.gmax)
               \cup {<<"colorSeries", ColorOf(x.cseries)>>, <<"colorNegative", ColorOf(x.cnegative)>>, <<"colorAxis", "000000">>, <<"colorMarkers", ColorOf(x.cmarkers)>>,
                     <<"colorFirst", ColorOf(x.cfirst)>>, <<"colorLast", ColorOf(x.clast)>>, <<"colorHigh", ColorOf(x.chigh)>>, <<"colorLow", ColorOf(x.clow)>>}
               \cup (IF x.dates.ok THEN {<<"dates", RefText(x.dates)>>} ELSE {})
               \cup {<<"at", S(k)>> \o at[k] : k \in DOMAIN at}
    IN {<<"sl", i, S(n)>> \o y : y \in all}

----------------------------------------------------------------------------
RuleOps == {"cf", "dv", "sparkline", "sparkgroup"}
RuleStep(ru, o) ==
    CASE o.op = "cf" ->
           LET sq == SqOf(o) IN
           IF PlaceErr(o) # "" THEN <<ru, "err:" \o PlaceErr(o)>>
           ELSE IF CfBad(o) THEN <<ru, "err:ConditionalFormatError">>
           ELSE LET new == sq \notin DOMAIN ru.cf IN
                <<[ru EXCEPT !.order = IF new THEN Append(@, sq) ELSE @, !.cf = Put(@, sq, Append(IF new THEN << >> ELSE @[sq], o))], "ok">>
      [] o.op = "dv" ->
           LET d == FoldL(DvSet, DvInit, o.set)
               sq == IF d.multic # << >> THEN SqText(d.multic) ELSE RangeRef(o.r, o.c, o.r2, o.c2)
           IN IF d.bad THEN <<ru, "err:DataValidationError">>
              ELSE IF PlaceErr(o) # "" THEN <<ru, "err:" \o PlaceErr(o)>>
              ELSE IF Idle(d) THEN <<ru, "ok">> ELSE <<[ru EXCEPT !.dv = Put(@, sq, d)], "ok">>
      [] OTHER ->
           LET x == FoldL(SlSet, SlInit, o.set)
               one == IF o.op = "sparkline" THEN [o EXCEPT !.r2 = o.r, !.c2 = o.c] ELSE o
           IN IF SlErr(one, x) # "" THEN <<ru, "err:" \o SlErr(one, x)>>
              ELSE <<[ru EXCEPT !.sl = Append(@, <<x, SlCells(one, x.range, x.colorder)>>)], "ok">>

RulesStep(st, o) ==
    IF o.op = "add_sheet" THEN LET r == GridStep(st, o) IN [r EXCEPT !.st.rules = Append(@, NoRules)]
    ELSE IF o.op \in RuleOps THEN LET r == RuleStep(st.rules[o.s + 1], o) IN [st |-> [st EXCEPT !.rules[o.s + 1] = r[1]], res |-> r[2]]
    ELSE GridStep(st, o)

\* Rules take precedence in the order of their ranges, then in the order they were added.
RECURSIVE Ordered(_, _)
Ordered(ru, order) == IF order = << >> THEN << >>
                      ELSE [k \in DOMAIN ru.cf[order[1]] |-> <<order[1], ru.cf[order[1]][k]>>] \o Ordered(ru, Tail(order))
CfAll(i, ru) ==
    LET rs == Ordered(ru, ru.order) IN
    UNION {LET k == <<"cf", i, S(n)>> IN
           {k \o <<"at", rs[n][1], CfType(rs[n][2])>>} \cup {k \o y : y \in RuleFacts(rs[n][2], AnchorOf(rs[n][1]))} : n \in DOMAIN rs}
RulesExpect(cs, st, o) ==
    LET view == Range(cs.view) IN
    UNION {LET i == S(n)
               ru == st.rules[n] IN
           (IF "cf" \in view THEN CfAll(i, ru) ELSE {})
           \cup (IF "dv" \in view THEN UNION {DvFacts(i, sq, ru.dv[sq]) : sq \in DOMAIN ru.dv} ELSE {})
           \cup (IF "sl" \in view THEN UNION {SlFacts(i, k, ru.sl[k]) : k \in DOMAIN ru.sl} ELSE {})
           : n \in DOMAIN st.sheets}
    \cup GridFacts(st, view \ {"cf", "dv", "sl"})
=============================================================================
