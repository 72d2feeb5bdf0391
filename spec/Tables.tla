------------------------------- MODULE Tables -------------------------------
(* Worksheet tables: column names, totals and calculated columns.            *)
EXTENDS Fmt, Formulas

\* Column names in a structured reference.
EscapeColumn(v) == Join([k \in 1 .. Len(v) |-> LET ch == SubSeq(v, k, k) IN
                         IF ch \in {"'", "#", "[", "]"} THEN "'" \o ch ELSE ch])
\* A column: h header, low its lower case, tl total label, tf total function, tft its formula when
\* custom, ft column formula; hx, x formats (hasx, hash: given).
Subtotal == [average |-> "101", count |-> "103", countNums |-> "102", max |-> "104", min |-> "105", sum |-> "109", stdDev |-> "107", var |-> "110"]
TotalFormula(col) == IF col.tf = "custom" THEN col.tft ELSE "SUBTOTAL(" \o Subtotal[col.tf] \o ",[" \o EscapeColumn(col.h) \o "])"
\* The current row, outside of text.
RECURSIVE ThisRow(_, _)
ThisRow(cs, inq) ==
    IF cs = << >> THEN << >>
    ELSE LET q == IF cs[1] = "%22;" THEN ~inq ELSE inq IN
         (IF cs[1] = "@" /\ ~q THEN Tok("[#This Row],") ELSE <<cs[1]>>) \o ThisRow(Tail(cs), q)
ColumnFormula(fc) == Stored(ThisRow(fc, FALSE))[1]

\* Names of the columns: the given header, else the text above the data, else a
\* number.  "above" gives the cell over a column: <<text, lower case>> or << >>.
\* Each result is <<name, lower case>>.
ColumnNames(cols, n, above(_)) ==
    [k \in 1 .. n |-> IF k <= Len(cols) /\ cols[k].h # "" THEN <<cols[k].h, cols[k].low>>
                      ELSE IF above(k) # << >> THEN above(k) ELSE <<"Column" \o S(k), "column" \o S(k)>>]
NoColumn == [h |-> "", low |-> "", tl |-> "", tlow |-> "", tf |-> "none", tfc |-> << >>, fc |-> << >>, hasx |-> FALSE, x |-> NoFmt, hash |-> FALSE, hx |-> NoFmt]
\* A column as given, with nothing in it.
NoTableCol == [h |-> "", low |-> "", tl |-> "", tlow |-> "", tf |-> "none", tfc |-> << >>, fc |-> << >>, hasx |-> FALSE, x |-> << >>, hash |-> FALSE, hx |-> << >>]
Column(cols, names, k) ==
    LET c == IF k <= Len(cols) THEN [NoColumn EXCEPT !.h = names[k][1], !.low = names[k][2], !.tl = cols[k].tl, !.tlow = cols[k].tlow, !.tf = cols[k].tf,
                                     !.tfc = cols[k].tfc, !.fc = cols[k].fc, !.hasx = cols[k].hasx, !.x = FmtOf(cols[k].x), !.hash = cols[k].hash, !.hx = FmtOf(cols[k].hx)]
             ELSE [NoColumn EXCEPT !.h = names[k][1], !.low = names[k][2]]
    IN [h |-> c.h, low |-> c.low, tl |-> c.tl, tlow |-> c.tlow, tf |-> c.tf, tft |-> IF c.tf = "custom" THEN Stored(c.tfc)[1] ELSE "",
        ft |-> IF c.fc = << >> THEN "" ELSE ColumnFormula(c.fc), hasx |-> c.hasx, x |-> c.x, hash |-> c.hash, hx |-> c.hx]

\* What the part of table t, number id in the workbook, shows.
TableName(t, id) == IF t.name = "" THEN "Table" \o S(id) ELSE t.name
TableKey(t, id) == IF t.name = "" THEN "table" \o S(id) ELSE t.low
TableFacts(i, t, id) ==
    LET p == <<i, S(t.r[1]), S(t.r[2])>>
        last == IF t.total THEN t.r[3] - 1 ELSE t.r[3]
    IN {<<"t">> \o p \o <<"ref", S(t.r[3]), S(t.r[4])>>, <<"t">> \o p \o <<"name", TableName(t, id)>>,
        <<"t">> \o p \o <<"header", NAT(t.header)>>, <<"t">> \o p \o <<"totals", NAT(t.total)>>,
        <<"t">> \o p \o <<"style", t.style, NAT(t.first), NAT(t.last), NAT(t.banded), NAT(t.bandedc)>>}
       \cup (IF t.fl THEN {<<"t">> \o p \o <<"filter", S(t.r[1]), S(t.r[2]), S(last), S(t.r[4])>>} ELSE {})
       \cup UNION {LET c == t.cols[k]
                       q == p \o <<S(k)>>
                   IN {<<"tc">> \o q \o <<"name", c.h>>}
                      \cup (IF c.tl # "" THEN {<<"tc">> \o q \o <<"label", c.tl>>} ELSE IF c.tf # "none" THEN {<<"tc">> \o q \o <<"function", c.tf>>} ELSE {})
                      \cup (IF c.tl = "" /\ c.tf = "custom" THEN {<<"tc">> \o q \o <<"total", c.tft>>} ELSE {})
                      \cup (IF c.ft # "" THEN {<<"tc">> \o q \o <<"formula", c.ft>>} ELSE {})
                      \cup (IF c.hasx THEN {<<"tc">> \o q \o <<"dxf">> \o y : y \in DxfFacts(c.x) \cup {<<"", "">>}} ELSE {})
                   : k \in DOMAIN t.cols}
=============================================================================
