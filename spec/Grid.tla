-------------------------------- MODULE Grid --------------------------------
(* The workbook as a state machine: worksheets holding cells, formats, row   *)
(* and column properties, merged ranges, tables, autofilters and links, and  *)
(* the file each save must produce.                                          *)
EXTENDS VBase, Fmt, Formulas, Tables, Filters

----------------------------------------------------------------------------
(* State *)
\* cell: k kind, v value, x format, e extra
\*   "n" number, "s" string, "r" rich string, "b" bool, "z" blank, "f" formula, "a"/"d" array formula
Cell(k, v, x, e) == [k |-> k, v |-> v, x |-> x, e |-> e]
NoRow == [ht |-> "", hp |-> 20, x |-> NoFmt, xs |-> FALSE, hid |-> FALSE, lvl |-> 0, col |-> FALSE]
NoCol == [wd |-> "", px |-> 0, af |-> FALSE, x |-> NoFmt, xs |-> FALSE, hid |-> FALSE, lvl |-> 0, col |-> FALSE]
NewSheet(mode) ==
    [ mode |-> mode,            \* std | low | const | chart
      cur |-> 0,                \* constant/low memory: the row being written
      tch |-> FALSE,            \* ... and whether it has been written to
      frows |-> Empty,          \* ... and the properties of rows already written out
      cells |-> Empty,          \* <<r, c>> -> cell
      rows |-> Empty, cols |-> Empty,
      links |-> Empty,          \* <<r, c>> -> <<url, tip>>
      merged |-> {},            \* set of <<r1, c1, r2, c2>>
      tables |-> << >>,         \* sequence of tables, in insertion order
      af |-> << >>,             \* worksheet autofilter range, or << >>
      fcond |-> Empty,          \* column -> filter condition
      fauto |-> TRUE,           \* hide the rows that do not match
      nan |-> "NAN", inf |-> "INF", ninf |-> "-INF",
      defres |-> <<"n", "0.0">>,
      defht |-> "15.0", defhp |-> 20 ]   \* default row height: text and pixels

GridInit(cs) == [sheets |-> << >>, names |-> {}]

InGrid(r, c) == r < ROWMAX /\ c < COLMAX

RowFmt(sh, r) == IF r \in DOMAIN sh.rows THEN sh.rows[r].x ELSE NoFmt
ColFmt(sh, c) == IF c \in DOMAIN sh.cols THEN sh.cols[c].x ELSE NoFmt
\* Format of a cell written without one, where row and column were both given
\* one (possibly the default one).
RowColFmt(sh, r, c) ==
    IF r \in DOMAIN sh.rows /\ c \in DOMAIN sh.cols /\ sh.rows[r].xs /\ sh.cols[c].xs
    THEN FMerge(RowFmt(sh, r), ColFmt(sh, c)) ELSE NoFmt
Flushed(sh, r) == sh.mode \in {"const", "low"} /\ r < sh.cur
\* Properties of a row as the file shows them.
ShownRow(sh, r) == IF Flushed(sh, r) THEN Get(sh.frows, r, NoRow) ELSE Get(sh.rows, r, NoRow)
\* The format a cell shows: its own, else its row's, else its column's.  Rows
\* already written out keep the format they were written with.
EffFmt(sh, r, c, x) ==
    IF DOMAIN x # {} \/ Flushed(sh, r) THEN x
    ELSE IF DOMAIN RowFmt(sh, r) # {} THEN RowFmt(sh, r) ELSE ColFmt(sh, c)
\* Format argument of a write: the given format, or the row/column combination.
OpFmt(o) == IF Flag(o, "hf") THEN FmtOf(o.f) ELSE NoFmt
WrFmt(sh, o, r, c) == IF Flag(o, "hf") THEN FmtOf(o.f) ELSE RowColFmt(sh, r, c)

----------------------------------------------------------------------------
(* Primitive transitions on a sheet *)

\* Constant and low memory sheets keep only the current row: writes to
\* earlier rows are ignored, writes to later rows move the window, and the
\* rows it leaves are written out as they are.
Settled(sh, r) == Flushed(sh, r)
Flush(sh, new) ==
    IF sh.mode \notin {"const", "low"} \/ new <= sh.cur THEN sh
    ELSE [sh EXCEPT !.cells = [p \in DOMAIN sh.cells |->
                                 IF p[1] >= sh.cur /\ p[1] < new
                                 THEN [sh.cells[p] EXCEPT !.x = EffFmt(sh, p[1], p[2], @)] ELSE sh.cells[p]],
                    !.frows = [r \in DOMAIN sh.frows \cup {q \in DOMAIN sh.rows : q >= sh.cur /\ q < new} |->
                                 IF r >= sh.cur THEN sh.rows[r] ELSE sh.frows[r]],
                    !.tch = \E p \in DOMAIN sh.cells : p[1] = new,
                    !.cur = new]
PutHere(sh, r, c, cell) == [sh EXCEPT !.cells = Put(@, <<r, c>>, cell), !.tch = @ \/ r = sh.cur]
PutCell(sh, r, c, cell) == IF Settled(sh, r) THEN sh ELSE PutHere(Flush(sh, r), r, c, cell)
\* Writing ahead (merged ranges, array formulas) does not move the window.
PutAhead(sh, r, c, cell) == IF Settled(sh, r) THEN sh ELSE PutHere(sh, r, c, cell)
\* Saving writes out everything that is pending.
Pending(sh) == {p[1] : p \in {q \in DOMAIN sh.cells : q[1] >= sh.cur}} \cup {r \in DOMAIN sh.rows : r >= sh.cur}
               \cup (IF sh.tch THEN {sh.cur} ELSE {})
Saved(sh) == IF sh.mode \in {"const", "low"} /\ Pending(sh) # {} THEN Flush(sh, SetMax(Pending(sh)) + 1) ELSE sh
\* Operations on cells already in memory.
InMemory(sh, r) == sh.mode \notin {"const", "low"} \/ r = sh.cur

\* "shr" = <<sheet, "ok" | error>>
OkS(sh) == <<sh, "ok">>
ErrS(sh, e) == <<sh, "err:" \o e>>

WBlank(sh, r, c, x) ==
    IF ~InGrid(r, c) THEN ErrS(sh, "RowColumnLimitError")
    ELSE OkS(PutCell(sh, r, c, Cell("z", "", IF DOMAIN x = {} THEN RowColFmt(sh, r, c) ELSE x, << >>)))

\* A string write: empty strings are blanks when formatted and nothing otherwise.
WString(sh, r, c, v, len, hf, x) ==
    IF len = 0 THEN (IF hf THEN WBlank(sh, r, c, x) ELSE OkS(sh))
    ELSE IF ~InGrid(r, c) THEN ErrS(sh, "RowColumnLimitError")
    ELSE IF len > 32767 THEN ErrS(sh, "MaxStringLengthExceeded")
    ELSE OkS(PutCell(sh, r, c, Cell("s", v, IF hf THEN x ELSE RowColFmt(sh, r, c), << >>)))

WNumber(sh, r, c, v, hf, x) ==
    IF ~InGrid(r, c) THEN ErrS(sh, "RowColumnLimitError")
    ELSE CASE v = "NaN"  -> WString(sh, r, c, sh.nan, 1, hf, x)
           [] v = "inf"  -> WString(sh, r, c, sh.inf, 1, hf, x)
           [] v = "-inf" -> WString(sh, r, c, sh.ninf, 1, hf, x)
           [] OTHER -> OkS(PutCell(sh, r, c, Cell("n", v, IF hf THEN x ELSE RowColFmt(sh, r, c), << >>)))

WSimple(sh, r, c, k, v, hf, x, e) ==
    IF ~InGrid(r, c) THEN ErrS(sh, "RowColumnLimitError")
    ELSE OkS(PutCell(sh, r, c, Cell(k, v, IF hf THEN x ELSE RowColFmt(sh, r, c), e)))

\* The stored result of a formula: the given one or the sheet's default.
FRes(sh, o) == IF Has(o, "res") /\ o.res # "" THEN <<o.rt, o.rv>> ELSE sh.defres

RECURSIVE ForCells(_, _, _)
\* Apply F(sheet, <<r, c>>) to every position of a sequence.
ForCells(F(_, _), sh, ps) == IF ps = << >> THEN sh ELSE ForCells(F, F(sh, ps[1]), Tail(ps))

Positions(r1, c1, r2, c2) ==
    LET w == c2 - c1 + 1 IN
    [k \in 1 .. (r2 - r1 + 1) * w |-> <<r1 + (k - 1) \div w, c1 + ((k - 1) % w)>>]

RangeErr(r1, c1, r2, c2) ==
    IF ~InGrid(r1, c1) \/ ~InGrid(r2, c2) THEN "RowColumnLimitError"
    ELSE IF r1 > r2 \/ c1 > c2 THEN "RowColumnOrderError" ELSE ""

\* An array formula holds the formula in its first cell and 0 in the others.
WArray(sh, o, dyn) ==
    LET e == RangeErr(o.r, o.c, o.r2, o.c2)
        hf == Flag(o, "hf")
        x == OpFmt(o)
        first == Cell(IF dyn THEN "d" ELSE "a", o.ft, WrFmt(sh, o, o.r, o.c),
                      FRes(sh, o) \o <<o.r, o.c, o.r2, o.c2>>)
        zero(s2, p) == IF p = <<o.r, o.c>> THEN s2
                       ELSE IF p[1] = o.r THEN PutCell(s2, p[1], p[2], Cell("n", "0.0", IF hf THEN x ELSE RowColFmt(s2, p[1], p[2]), << >>))
                       ELSE PutAhead(s2, p[1], p[2], Cell("n", "0.0", IF hf THEN x ELSE RowColFmt(s2, p[1], p[2]), << >>))
    IN IF e # "" THEN ErrS(sh, e)
       ELSE OkS(ForCells(zero, PutCell(sh, o.r, o.c, first), Positions(o.r, o.c, o.r2, o.c2)))

Overlap(a, b) == a[1] <= b[3] /\ b[1] <= a[3] /\ a[2] <= b[4] /\ b[2] <= a[4]

WMerge(sh, o) ==
    LET e == RangeErr(o.r, o.c, o.r2, o.c2)
        x == OpFmt(o)
        R == <<o.r, o.c, o.r2, o.c2>>
        blank(s2, p) ==
            LET cell == Cell("z", "", IF DOMAIN x = {} THEN RowColFmt(s2, p[1], p[2]) ELSE x, << >>) IN
            IF p = <<o.r, o.c>> THEN s2
            ELSE IF p[1] = o.r THEN PutCell(s2, p[1], p[2], cell) ELSE PutAhead(s2, p[1], p[2], cell)
    IN IF e # "" THEN ErrS(sh, e)
       ELSE IF o.r = o.r2 /\ o.c = o.c2 THEN ErrS(sh, "MergeRangeSingleCell")
       ELSE IF \E m \in sh.merged : Overlap(m, R) THEN ErrS(sh, "MergeRangeOverlaps")
       ELSE IF o.vlen > 32767 THEN ErrS(sh, "MaxStringLengthExceeded")
       ELSE LET w == WString(sh, o.r, o.c, o.vt, o.vlen, TRUE, x)[1] IN
            OkS([ForCells(blank, w, Positions(o.r, o.c, o.r2, o.c2)) EXCEPT !.merged = @ \cup {R}])

\* Formatting existing cells; absent cells become blank formatted ones.
FmtCell(sh, r, c, x) ==
    IF Settled(sh, r) THEN sh
    ELSE LET s1 == Flush(sh, r) IN
         IF <<r, c>> \in DOMAIN s1.cells THEN [s1 EXCEPT !.cells[<<r, c>>].x = x]
         ELSE IF DOMAIN x = {} THEN s1
         ELSE PutHere(s1, r, c, Cell("z", "", x, << >>))

\* The cell format with the border properties of "bf" on the outer edges.
EdgeFmt(o, p) ==
    LET f == OpFmt(o)
        b == FmtOf(o.bf)
        keys == (IF p[1] = o.r THEN {"bt", "btc"} ELSE {}) \cup (IF p[1] = o.r2 THEN {"bb", "bbc"} ELSE {})
                \cup (IF p[2] = o.c THEN {"bl", "blc"} ELSE {}) \cup (IF p[2] = o.c2 THEN {"br", "brc"} ELSE {})
    IN [k \in (DOMAIN f \ keys) \cup (DOMAIN b \cap keys) |-> IF k \in keys THEN b[k] ELSE f[k]]

RECURSIVE WriteSeq(_, _, _, _)
\* A sequence of writes that stops at the first rejected one.
WriteSeq(W(_, _, _, _), sh, ps, vs) ==
    IF vs = << >> THEN OkS(sh)
    ELSE LET r == W(sh, ps[1][1], ps[1][2], vs[1]) IN
         IF r[2] = "ok" THEN WriteSeq(W, r[1], Tail(ps), Tail(vs)) ELSE r

URLHF(o) == IF Flag(o, "hf") THEN FmtOf(o.f) ELSE HyperFmt
\* "uc" holds the characters of the link, "utx" the display text if one was
\* given ("utn" its length) and "tipn" the length of the tip.
WUrl(sh, o) ==
    LET l == LinkOf(o.uc)
        text == IF o.utx # "" THEN o.utx ELSE Join(l.text)
        len == IF o.utx # "" THEN o.utn ELSE Len(l.text)
    IN IF l.err # "" THEN ErrS(sh, l.err)
       ELSE IF o.tipn > 255 THEN ErrS(sh, "ParameterError")
       ELSE LET w == WString(sh, o.r, o.c, text, len, TRUE, URLHF(o)) IN
            IF w[2] # "ok" THEN w
            ELSE IF Settled(sh, o.r) THEN OkS(w[1])
            ELSE OkS([w[1] EXCEPT !.links = Put(@, <<o.r, o.c>>, <<l.target, l.loc, o.tipx>>)])

----------------------------------------------------------------------------
(* Tables *)
RECURSIVE ForCols(_, _, _)
ForCols(F(_, _), sh, ks) == IF ks = << >> THEN sh ELSE ForCols(F, F(sh, ks[1]), Tail(ks))

\* Tables around serialized values ("serde") leave their header to them.
WTable(sh, o) ==
    LET e == RangeErr(o.r, o.c, o.r2, o.c2)
        R == <<o.r, o.c, o.r2, o.c2>>
        fl == o.header /\ o.filter
        above(k) == LET p == <<o.r, o.c + k - 1>> IN
                    IF o.header /\ p \in DOMAIN sh.cells /\ sh.cells[p].k = "s" /\ ~Flushed(sh, o.r)
                    THEN <<sh.cells[p].v, IF sh.cells[p].e = << >> THEN sh.cells[p].v ELSE sh.cells[p].e[1]>> ELSE << >>
        n == o.c2 - o.c + 1
        names == ColumnNames(o.cols, n, above)
        cols == [k \in 1 .. n |-> Column(o.cols, names, k)]
        r1 == IF o.header THEN o.r + 1 ELSE o.r
        rn == IF o.total THEN o.r2 - 1 ELSE o.r2
        one(s, k) ==
            LET c == o.c + k - 1
                col == cols[k]
                data == [m \in 1 .. Max2(0, rn - r1 + 1) |-> <<r1 + m - 1, c>>]
                head == IF o.header /\ ~Has(o, "serde") THEN PutCell(s, o.r, c, Cell("s", col.h, IF col.hash THEN col.hx ELSE RowColFmt(s, o.r, c), <<col.low>>)) ELSE s
                tot == IF ~o.total THEN head
                       ELSE IF col.tl # "" THEN PutAhead(head, o.r2, c, Cell("s", col.tl, col.x, <<col.tlow>>))
                       ELSE IF col.tf # "none" THEN PutAhead(head, o.r2, c, Cell("f", TotalFormula(col), col.x, sh.defres))
                       ELSE head
                fill == IF col.ft = "" THEN tot
                        ELSE ForCells(LAMBDA s2, p : PutAhead(s2, p[1], p[2], Cell("f", col.ft, col.x, sh.defres)), tot, data)
                touch == Range(data) \cup (IF o.total /\ col.tf # "none" THEN {<<o.r2, c>>} ELSE {})
            IN IF ~col.hasx THEN fill
               ELSE [fill EXCEPT !.cells = [p \in DOMAIN @ |-> IF p \in touch /\ ~Flushed(fill, p[1]) THEN [@[p] EXCEPT !.x = col.x] ELSE @[p]]]
        done == ForCols(one, sh, [k \in 1 .. n |-> k])
    IN IF e # "" THEN ErrS(sh, e)
       ELSE IF o.r = o.r2 /\ (o.header \/ o.total) THEN ErrS(sh, "TableError")
       ELSE IF Cardinality({names[k][2] : k \in DOMAIN names}) < n THEN ErrS(sh, "TableError")
       ELSE IF \E k \in DOMAIN sh.tables : Overlap(sh.tables[k].r, R) THEN ErrS(sh, "TableRangeOverlaps")
       ELSE IF fl /\ sh.af # << >> /\ Overlap(<<sh.af[1], sh.af[2], sh.af[1], sh.af[4]>>, <<o.r, o.c, o.r, o.c2>>) THEN ErrS(sh, "AutofilterRangeOverlaps")
       ELSE OkS([done EXCEPT !.tables = Append(@, [r |-> R, fl |-> fl, header |-> o.header, total |-> o.total, banded |-> o.banded, bandedc |-> o.bandedc,
                                                  first |-> o.first, last |-> o.last, style |-> o.style, name |-> o.namex, low |-> o.namel, cols |-> cols])])

\* Tables are numbered over the whole workbook.
RECURSIVE TablesBefore(_, _)
TablesBefore(st, i) == IF i <= 1 THEN 0 ELSE TablesBefore(st, i - 1) + Len(st.sheets[i - 1].tables)
TableKeys(st) == [i \in DOMAIN st.sheets |-> [k \in DOMAIN st.sheets[i].tables |-> TableKey(st.sheets[i].tables[k], TablesBefore(st, i) + k)]]
TableNameReused(st) ==
    Cardinality(UNION {Range(TableKeys(st)[i]) : i \in DOMAIN st.sheets}) < TablesBefore(st, Len(st.sheets) + 1)

(* Filters *)
FilterCell(sh, p) ==
    IF p \notin DOMAIN sh.cells THEN [k |-> "z", key |-> << >>]
    ELSE LET c == sh.cells[p] IN
         CASE c.k \in {"s", "r"} -> [k |-> "s", key |-> c.e[2]]
           [] c.k = "n" -> [k |-> "n", key |-> c.e[2]]
           [] OTHER -> [k |-> c.k, key |-> << >>]
FilteredRows(sh) ==
    IF ~sh.fauto \/ sh.fcond = Empty THEN {}
    ELSE {r \in sh.af[1] + 1 .. sh.af[3] : \E c \in DOMAIN sh.fcond : ~Match(sh.fcond[c], FilterCell(sh, <<r, c>>))}

----------------------------------------------------------------------------
(* Row and column properties *)
RowOf(sh, r) == IF r \in DOMAIN sh.rows THEN sh.rows[r] ELSE [NoRow EXCEPT !.ht = sh.defht, !.hp = sh.defhp]
ColOf(sh, c) == IF c \in DOMAIN sh.cols THEN sh.cols[c] ELSE NoCol
RowGuard(sh, r, new) == IF r >= ROWMAX THEN ErrS(sh, "RowColumnLimitError")
                        ELSE OkS([sh EXCEPT !.rows = Put(@, r, new)])
ColGuard(sh, c, new) == IF c >= COLMAX THEN ErrS(sh, "RowColumnLimitError")
                        ELSE OkS([sh EXCEPT !.cols = Put(@, c, new)])

GroupRows(sh, a, b, collapsed) ==
    IF a >= ROWMAX \/ b >= ROWMAX THEN ErrS(sh, "RowColumnLimitError")
    ELSE IF a > b THEN ErrS(sh, "RowColumnOrderError")
    ELSE IF collapsed /\ b + 1 >= ROWMAX THEN ErrS(sh, "RowColumnLimitError")
    ELSE IF \E r \in a .. b : RowOf(sh, r).lvl >= 7 THEN ErrS(sh, "MaxGroupLevelExceeded")
    ELSE LET up == [r \in DOMAIN sh.rows \cup a .. b |->
                      IF r \in a .. b THEN [RowOf(sh, r) EXCEPT !.lvl = @ + 1, !.hid = @ \/ collapsed]
                      ELSE sh.rows[r]]
             s2 == [sh EXCEPT !.rows = up]
         IN OkS(IF collapsed THEN [s2 EXCEPT !.rows = Put(@, b + 1, [RowOf(s2, b + 1) EXCEPT !.col = TRUE])] ELSE s2)

GroupCols(sh, a, b, collapsed) ==
    IF a >= COLMAX \/ b >= COLMAX THEN ErrS(sh, "RowColumnLimitError")
    ELSE IF a > b THEN ErrS(sh, "RowColumnOrderError")
    ELSE IF collapsed /\ b + 1 >= COLMAX THEN ErrS(sh, "RowColumnLimitError")
    ELSE IF \E c \in a .. b : ColOf(sh, c).lvl >= 7 THEN ErrS(sh, "MaxGroupLevelExceeded")
    ELSE LET up == [c \in DOMAIN sh.cols \cup a .. b |->
                      IF c \in a .. b THEN [ColOf(sh, c) EXCEPT !.lvl = @ + 1, !.hid = @ \/ collapsed]
                      ELSE sh.cols[c]]
             s2 == [sh EXCEPT !.cols = up]
         IN OkS(IF collapsed THEN [s2 EXCEPT !.cols = Put(@, b + 1, [ColOf(s2, b + 1) EXCEPT !.col = TRUE])] ELSE s2)

\* Width in characters ("wd", canonical text) and whether it is zero.
ColWidth(sh, c, o, auto) ==
    IF o.zero THEN (IF c >= COLMAX THEN ErrS(sh, "RowColumnLimitError") ELSE ColGuard(sh, c, [ColOf(sh, c) EXCEPT !.hid = TRUE]))
    ELSE LET old == ColOf(sh, c) IN
         ColGuard(sh, c,
            IF auto /\ c \in DOMAIN sh.cols /\ ~old.af
            THEN (IF o.milli > (IF old.wd = "" THEN 64 ELSE old.px) THEN [old EXCEPT !.wd = o.wd, !.px = o.milli, !.af = TRUE] ELSE old)
            ELSE [old EXCEPT !.wd = o.wd, !.px = o.milli, !.af = auto])

----------------------------------------------------------------------------
(* One operation on one sheet *)
FilterHits(sh, R) == \E k \in DOMAIN sh.tables : sh.tables[k].fl /\ Overlap(<<R[1], R[2], R[1], R[4]>>, <<sh.tables[k].r[1], sh.tables[k].r[2], sh.tables[k].r[1], sh.tables[k].r[4]>>)

\* Formulas given as written ("fc") are stored in their prefixed form.
WithText(o) == IF Has(o, "fc") THEN LET f == Stored(o.fc) IN [ft |-> f[1], dyn |-> f[2]] @@ o ELSE o
SheetStep(sh, o0) ==
    LET o == WithText(o0)
        op == o.op
        hf == Flag(o, "hf")
        x == OpFmt(o)
    IN CASE op = "num" -> WNumber(sh, o.r, o.c, o.v, hf, x)
         [] op = "str" -> WString(sh, o.r, o.c, o.vt, o.vlen, hf, x)
         [] op = "bool" -> WSimple(sh, o.r, o.c, "b", NAT(o.v), hf, x, << >>)
         [] op = "checkbox" ->
                WSimple(sh, o.r, o.c, "b", NAT(o.v), TRUE, Put(x, "cb", "1"), << >>)
         [] op = "blank" -> WBlank(sh, o.r, o.c, x)
         [] op = "formula" ->
                IF Flag(o, "dyn")
                THEN WArray(sh, o @@ [r2 |-> o.r, c2 |-> o.c], TRUE)
                ELSE WSimple(sh, o.r, o.c, "f", o.ft, hf, x, FRes(sh, o))
         [] op = "array" -> WArray(sh, o, Flag(o, "dyn"))
         [] op = "dynarray" -> WArray(sh, o, TRUE)
         [] op = "dynformula" -> WArray(sh, o @@ [r2 |-> o.r, c2 |-> o.c], TRUE)
         [] op = "rich" ->
                IF o.segs = << >> \/ \E k \in DOMAIN o.segs : o.segs[k].tt = "" THEN ErrS(sh, "ParameterError")
                ELSE WSimple(sh, o.r, o.c, "r", [k \in DOMAIN o.segs |-> <<FmtOf(o.segs[k].f), o.segs[k].tt>>], hf, x, << >>)
         [] op = "datetime" -> WSimple(sh, o.r, o.c, "n", o.serial, hf, x, <<"date">>)
         [] op = "url" -> WUrl(sh, o)
         [] op \in {"row", "col", "rowmat", "colmat"} ->
                WriteSeq(LAMBDA s2, r, c, v : WNumber(s2, r, c, v, hf, x), sh, o.ps, o.fl)
         [] op = "srow" ->
                WriteSeq(LAMBDA s2, r, c, v : WString(s2, r, c, v, IF v = "" THEN 0 ELSE 1, hf, x), sh, o.ps, o.fl)
         [] op = "merge" -> WMerge(sh, o)
         [] op = "set_result" ->
                OkS(IF <<o.r, o.c>> \in DOMAIN sh.cells /\ sh.cells[<<o.r, o.c>>].k \in {"f", "a", "d"}
                       /\ InMemory(sh, o.r)
                    THEN [sh EXCEPT !.cells[<<o.r, o.c>>].e = <<o.rt, o.rv>> \o SubSeq(@, 3, Len(@))]
                    ELSE sh)
         [] op = "set_result_default" -> OkS([sh EXCEPT !.defres = <<o.rt, o.rv>>])
         [] op = "clear" -> OkS(IF ~InMemory(sh, o.r) THEN sh ELSE [sh EXCEPT !.cells = Del(@, {<<o.r, o.c>>})])
         [] op = "clearf" ->
                OkS(IF <<o.r, o.c>> \in DOMAIN sh.cells /\ InMemory(sh, o.r)
                    THEN [sh EXCEPT !.cells[<<o.r, o.c>>].x = NoFmt] ELSE sh)
         [] op = "setf" ->
                IF ~InGrid(o.r, o.c) THEN ErrS(sh, "RowColumnLimitError") ELSE OkS(FmtCell(sh, o.r, o.c, x))
         [] op = "setrf" ->
                LET e == RangeErr(o.r, o.c, o.r2, o.c2) IN
                IF e # "" THEN ErrS(sh, e)
                ELSE OkS(ForCells(LAMBDA s2, p : FmtCell(s2, p[1], p[2], x), sh, Positions(o.r, o.c, o.r2, o.c2)))
         [] op = "setrfb" ->
                LET e == RangeErr(o.r, o.c, o.r2, o.c2) IN
                IF e # "" THEN ErrS(sh, e)
                ELSE OkS(ForCells(LAMBDA s2, p : FmtCell(s2, p[1], p[2], EdgeFmt(o, p)), sh, Positions(o.r, o.c, o.r2, o.c2)))
         [] op = "nanval" -> OkS(CASE o.which = "nan" -> [sh EXCEPT !.nan = o.v]
                                   [] o.which = "inf" -> [sh EXCEPT !.inf = o.v]
                                   [] OTHER -> [sh EXCEPT !.ninf = o.v])
         [] op \in {"rheight", "rheightpx"} ->
                RowGuard(sh, o.r, IF o.zero THEN [RowOf(sh, o.r) EXCEPT !.hid = TRUE]
                                  ELSE [RowOf(sh, o.r) EXCEPT !.ht = o.wd, !.hp = o.hpx])
         [] op = "rformat" -> RowGuard(sh, o.r, [RowOf(sh, o.r) EXCEPT !.x = x, !.xs = TRUE])
         [] op = "rhide" -> RowGuard(sh, o.r, [RowOf(sh, o.r) EXCEPT !.hid = TRUE])
         [] op = "runhide" -> IF o.r \in DOMAIN sh.rows THEN RowGuard(sh, o.r, [RowOf(sh, o.r) EXCEPT !.hid = FALSE])
                              ELSE IF o.r >= ROWMAX THEN ErrS(sh, "RowColumnLimitError") ELSE OkS(sh)
         [] op \in {"rdefault", "rdefaultpx"} -> OkS(IF o.zero THEN sh ELSE [sh EXCEPT !.defht = o.wd, !.defhp = o.hpx])
         [] op = "rgroup" -> GroupRows(sh, o.r, o.r2, FALSE)
         [] op = "rgroupc" -> GroupRows(sh, o.r, o.r2, TRUE)
         [] op = "cgroup" -> GroupCols(sh, o.c, o.c2, FALSE)
         [] op = "cgroupc" -> GroupCols(sh, o.c, o.c2, TRUE)
         [] op \in {"cwidth", "cwidthpx"} -> ColWidth(sh, o.c, o, FALSE)
         [] op = "cautow" -> ColWidth(sh, o.c, o, TRUE)
         [] op = "cformat" -> ColGuard(sh, o.c, [ColOf(sh, o.c) EXCEPT !.x = x, !.xs = TRUE])
         [] op = "chide" -> ColGuard(sh, o.c, [ColOf(sh, o.c) EXCEPT !.hid = TRUE])
         [] op \in {"cwidths", "cwidthspx", "cformats", "chides"} ->
                IF o.c > o.c2 THEN ErrS(sh, "RowColumnOrderError")
                ELSE LET one(s2, r, c, v) ==
                             CASE op = "cformats" -> ColGuard(s2, c, [ColOf(s2, c) EXCEPT !.x = x, !.xs = TRUE])
                               [] op = "chides" -> ColGuard(s2, c, [ColOf(s2, c) EXCEPT !.hid = TRUE])
                               [] OTHER -> ColWidth(s2, c, o, FALSE)
                         n == o.c2 - o.c + 1
                     IN WriteSeq(one, sh, [k \in 1 .. n |-> <<0, o.c + k - 1>>], [k \in 1 .. n |-> 0])
         [] op = "autofilter" ->
                LET e == RangeErr(o.r, o.c, o.r2, o.c2)
                    R == <<o.r, o.c, o.r2, o.c2>>
                IN IF e # "" THEN ErrS(sh, e)
                   ELSE IF FilterHits(sh, R) THEN ErrS(sh, "AutofilterRangeOverlaps")
                   ELSE OkS([sh EXCEPT !.af = R, !.fcond = Empty])
         [] op = "filter" ->
                LET c == CondOf(o.conds) IN
                IF o.c >= COLMAX THEN ErrS(sh, "RowColumnLimitError")
                ELSE IF sh.af = << >> \/ ~CondSet(c) THEN ErrS(sh, "ParameterError")
                ELSE IF o.c < sh.af[2] \/ o.c > sh.af[4] THEN ErrS(sh, "ParameterError")
                ELSE OkS([sh EXCEPT !.fcond = Put(@, o.c, c)])
         [] op = "filteroff" -> OkS([sh EXCEPT !.fauto = FALSE])
         [] op = "table" -> WTable(sh, o)

\* Cells written with a key ("ky", and "lw" for the text in lower case) keep it.
Keyed(o, r) ==
    IF Has(o, "ky") /\ r[2] = "ok" /\ <<o.r, o.c>> \in DOMAIN r[1].cells
       /\ r[1].cells[<<o.r, o.c>>].k \in {"n", "s", "r"}
    THEN <<[r[1] EXCEPT !.cells[<<o.r, o.c>>].e = <<o.lw, o.ky>>], "ok">> ELSE r

GridStep(st, o) ==
    CASE o.op = "add_sheet" -> Ok([st EXCEPT !.sheets = Append(@, NewSheet(o.mode))])
      [] o.op = "save" -> IF TableNameReused(st) THEN Err(st, "TableNameReused") ELSE Ok([st EXCEPT !.sheets = [k \in DOMAIN @ |-> Saved(@[k])]])
      [] OTHER ->
            IF o.s >= Len(st.sheets) THEN Err(st, "UnknownWorksheetNameOrIndex")
            ELSE LET r == Keyed(o, SheetStep(st.sheets[o.s + 1], o)) IN
                 [st |-> [st EXCEPT !.sheets[o.s + 1] = r[1]], res |-> r[2]]
----------------------------------------------------------------------------
(* What a saved file must show.  Facts are tuples of strings.                *)
CellFacts(i, r, c, k) ==
    LET p == <<i, S(r), S(c)>> IN
    CASE k.k = "r" ->
           {<<"c">> \o p \o <<"r", S(Len(k.v))>>}
           \cup {<<"seg">> \o p \o <<S(n), k.v[n][2]>> : n \in DOMAIN k.v}
           \cup UNION {{<<"segf">> \o p \o <<S(n)>> \o y : y \in FontFacts(k.v[n][1])} : n \in DOMAIN k.v}
      [] k.k = "f" -> {<<"c">> \o p \o <<"f", k.v>>, <<"res">> \o p \o <<k.e[1], k.e[2]>>}
      [] k.k \in {"a", "d"} ->
           {<<"c">> \o p \o <<k.k, k.v>>, <<"res">> \o p \o <<k.e[1], k.e[2]>>,
            <<"ref">> \o p \o <<S(k.e[3]), S(k.e[4]), S(k.e[5]), S(k.e[6])>>}
      [] k.k = "z" -> {}
      [] OTHER -> {<<"c">> \o p \o <<k.k, k.v>>}

\* Blank cells exist only to carry a format that differs from the inherited one.
CellXFacts(i, sh, r, c, k) ==
    LET eff == FmtFacts(EffFmt(sh, r, c, k.x))
        rowx == ShownRow(sh, r).x
        inh == FmtFacts(IF DOMAIN rowx # {} THEN rowx ELSE ColFmt(sh, c))
        p == <<i, S(r), S(c)>>
    IN IF k.k = "z" /\ (eff = inh \/ eff = {}) THEN {}
       ELSE {<<"x">> \o p \o y : y \in eff} \cup (IF k.k = "z" THEN {<<"z">> \o p} ELSE {})

RowFacts(i, sh, r, filtered) ==
    LET w == ShownRow(sh, r)
        p == <<i, S(r)>>
    IN (IF w.ht \notin {"", sh.defht} THEN {<<"row">> \o p \o <<"ht", w.ht>>} ELSE {})
       \cup (IF w.hid \/ r \in filtered THEN {<<"row">> \o p \o <<"hidden", "1">>} ELSE {})
       \cup (IF w.lvl > 0 THEN {<<"row">> \o p \o <<"level", S(w.lvl)>>} ELSE {})
       \cup (IF w.col THEN {<<"row">> \o p \o <<"collapsed", "1">>} ELSE {})
       \cup {<<"rowx">> \o p \o y : y \in FmtFacts(w.x)}

ColFacts(i, sh, c) ==
    LET w == sh.cols[c]
        p == <<i, S(c)>>
    IN (IF w.wd \notin {"", "64"} THEN {<<"col">> \o p \o <<"px", w.wd>>} ELSE {})
       \cup (IF w.hid THEN {<<"col">> \o p \o <<"hidden", "1">>} ELSE {})
       \cup (IF w.lvl > 0 THEN {<<"col">> \o p \o <<"level", S(w.lvl)>>} ELSE {})
       \cup (IF w.col THEN {<<"col">> \o p \o <<"collapsed", "1">>} ELSE {})
       \cup {<<"colx">> \o p \o y : y \in FmtFacts(w.x)}

\* Views are sets of fact groups a property looks at.
SheetFacts(i, sh, view) ==
    (IF "c" \in view THEN UNION {CellFacts(i, p[1], p[2], sh.cells[p]) : p \in DOMAIN sh.cells} ELSE {})
    \cup (IF "x" \in view THEN UNION {CellXFacts(i, sh, p[1], p[2], sh.cells[p]) : p \in DOMAIN sh.cells} ELSE {})
    \cup (IF "row" \in view THEN LET fr == FilteredRows(sh) IN UNION {RowFacts(i, sh, r, fr) : r \in DOMAIN sh.rows \cup DOMAIN sh.frows \cup fr}
                              \cup (IF sh.defht = "15.0" THEN {} ELSE {<<"rowdefault", i, sh.defht>>}) ELSE {})
    \cup (IF "col" \in view THEN UNION {ColFacts(i, sh, c) : c \in DOMAIN sh.cols} ELSE {})
    \cup (IF "link" \in view THEN {<<"link", i, S(p[1]), S(p[2])>> \o sh.links[p] : p \in DOMAIN sh.links} ELSE {})
    \cup (IF "merge" \in view THEN {<<"merge", i, S(m[1]), S(m[2]), S(m[3]), S(m[4])>> : m \in sh.merged} ELSE {})
    \cup (IF "af" \in view /\ sh.af # << >> THEN {<<"af", i, S(sh.af[1]), S(sh.af[2]), S(sh.af[3]), S(sh.af[4])>>} ELSE {})
    \cup (IF "filter" \in view
           THEN UNION {CondFacts(<<i, S(c - sh.af[2])>>, sh.fcond[c]) : c \in DOMAIN sh.fcond} \cup (IF sh.fcond # Empty THEN {<<"filterMode", i>>} ELSE {})
           ELSE {})

\* Shared strings: one entry per distinct string in use, and one reference per cell.
StringCells(st) == {<<i, p>> \in UNION {{<<i, p>> : p \in DOMAIN st.sheets[i].cells} : i \in DOMAIN st.sheets} :
                      st.sheets[i].mode # "const" /\ st.sheets[i].cells[p].k \in {"s", "r"}}
SstKey(cell) == IF cell.k = "s" THEN <<"s", cell.v>>
                ELSE <<"r", [n \in DOMAIN cell.v |-> <<FontFacts(cell.v[n][1]), cell.v[n][2]>>]>>
SstFacts(st) ==
    LET sc == StringCells(st)
        uniq == {SstKey(st.sheets[q[1]].cells[q[2]]) : q \in sc}
    IN {<<"sst", "count", S(Cardinality(sc))>>, <<"sst", "unique", S(Cardinality(uniq))>>}

GridFacts(st, view) ==
    UNION {SheetFacts(S(i), st.sheets[i], view) : i \in DOMAIN st.sheets}
    \cup (IF "sst" \in view THEN SstFacts(st) ELSE {})
    \cup (IF "table" \in view
           THEN UNION {UNION {TableFacts(S(i), st.sheets[i].tables[k], TablesBefore(st, i) + k) : k \in DOMAIN st.sheets[i].tables} : i \in DOMAIN st.sheets}
           ELSE {})
GridExpect(cs, st, o) == GridFacts(st, Range(cs.view))
=============================================================================
