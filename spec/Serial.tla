------------------------------- MODULE Serial -------------------------------
(* Serialized structs: areas of a worksheet which collect the values of      *)
(* structs by name, with headers, formats and tables.                        *)
EXTENDS Grid, Refs

\* Per worksheet the areas, in the order they were defined:
\* [name, fields, r1, c1, c2, next, t, ti]; "fields" gives the column and value
\* format of a field, "next" the row of the next value, "t" the table or << >>,
\* and "ti" its number once a save has added it.
SerialInit(cs) == GridInit(cs) @@ [ser |-> << >>]

----------------------------------------------------------------------------
(* Names of fields, as Serde gives them.                                      *)
UpS(cs) == Up(cs)
LowCh(ch) == IF ch \in UpSet THEN LET k == IndexIn(UPPER, ch) IN SubSeq(LOWER, k, k) ELSE IF ch = "%C9;" THEN "%E9;" ELSE ch
LowS(cs) == [k \in DOMAIN cs |-> LowCh(cs[k])]
Swap(cs, a, b) == [k \in DOMAIN cs |-> IF cs[k] = a THEN b ELSE cs[k]]
RECURSIVE Pascal(_, _)
Pascal(cs, up) == IF cs = << >> THEN << >>
                  ELSE IF cs[1] = "_" THEN Pascal(Tail(cs), TRUE)
                  ELSE <<IF up THEN UpCh(cs[1]) ELSE cs[1]>> \o Pascal(Tail(cs), FALSE)
Renamed(rule, cs) ==
    CASE rule \in {"none", "lower", "snake"} -> cs
      [] rule \in {"upper", "screaming"} -> UpS(cs)
      [] rule = "pascal" -> Pascal(cs, TRUE)
      [] rule = "camel" -> LET p == Pascal(cs, TRUE) IN [k \in DOMAIN p |-> IF k = 1 THEN LowCh(p[1]) ELSE p[k]]
      [] rule = "kebab" -> Swap(cs, "_", "-")
      [] rule = "skebab" -> Swap(UpS(cs), "_", "-")
Chars(s) == [k \in 1 .. Len(s) |-> SubSeq(s, k, k)]
\* A name: its text, in lower case, and its length.
Name(cs) == [t |-> Join(cs), low |-> Join(LowS(cs)), n |-> Len(cs)]

----------------------------------------------------------------------------
(* Fields and structs with derived options.                                   *)
\* ser, de, shown: names which replace the field's own; gone: in Serde at all,
\* mute: when serializing, skip: in the worksheet; opt: left out when absent.
Fld(id) == [id |-> Chars(id), ser |-> << >>, de |-> << >>, shown |-> << >>, gone |-> FALSE, mute |-> FALSE, skip |-> FALSE, opt |-> FALSE,
            hf |-> FALSE, hx |-> NoFmt, cf |-> FALSE, cx |-> NoFmt, vf |-> FALSE, vx |-> NoFmt, w |-> << >>]
Bold == [b |-> "1"]
Italic == [i |-> "1"]
Plain0 == [name |-> "", ser |-> "none", de |-> "none", fs |-> << >>, hf |-> FALSE, hx |-> NoFmt, hide |-> FALSE, table |-> << >>]
DefaultTable == [header |-> TRUE, total |-> FALSE, banded |-> TRUE, bandedc |-> FALSE, first |-> FALSE, last |-> FALSE, filter |-> TRUE,
                 namex |-> "", namel |-> "", style |-> "TableStyleMedium9", cols |-> << >>]
Struct(k) ==
    CASE k = 0 -> [Plain0 EXCEPT !.name = "Plain", !.fs = <<Fld("name"), Fld("price"), Fld("in_stock")>>]
      [] k = 1 -> [Plain0 EXCEPT !.name = "Camel", !.ser = "camel", !.de = "camel", !.fs = <<Fld("first_name"), Fld("last__name"), Fld("z42_x")>>]
      [] k = 2 -> [Plain0 EXCEPT !.name = "Kebab", !.ser = "skebab", !.de = "skebab", !.hf = TRUE, !.hx = Bold,
                     !.fs = <<Fld("very_tasty"), [Fld("given") EXCEPT !.ser = Chars("Given Name"), !.de = Chars("Given Name")],
                              [Fld("both") EXCEPT !.ser = Chars("out name"), !.de = Chars("in"), !.hf = TRUE, !.hx = Italic], Fld("original")>>]
      [] k = 3 -> [Plain0 EXCEPT !.name = "Raw", !.fs = <<Fld("type"), Fld("match"), Fld("plain")>>]
      [] k = 4 -> [Plain0 EXCEPT !.name = "Renamed struct", !.ser = "pascal", !.de = "pascal",
                     !.fs = <<Fld("_lead"), Fld("two__under"), [Fld("gone") EXCEPT !.gone = TRUE], [Fld("b_c") EXCEPT !.shown = Chars("Shown as")],
                              [Fld("gone_too") EXCEPT !.mute = TRUE], Fld("a")>>]
      [] k = 5 -> [Plain0 EXCEPT !.name = "Hidden", !.hide = TRUE,
                     !.fs = <<[Fld("cost") EXCEPT !.vf = TRUE, !.vx = [nfi |-> "2"]], [Fld("gone") EXCEPT !.skip = TRUE],
                              [Fld("wide") EXCEPT !.w = <<[zero |-> FALSE, wd |-> "93", milli |-> 93]>>],
                              [Fld("narrow") EXCEPT !.w = <<[zero |-> FALSE, wd |-> "60", milli |-> 60]>>]>>]
      [] k = 6 -> [Plain0 EXCEPT !.name = "Tabular", !.table = <<DefaultTable>>,
                     !.fs = <<Fld("item"), [Fld("qty") EXCEPT !.vf = TRUE, !.vx = Italic, !.cf = TRUE, !.cx = Bold, !.hf = TRUE, !.hx = [wrap |-> "1"]]>>]
      [] k = 7 -> [Plain0 EXCEPT !.name = "Styled", !.ser = "upper", !.de = "lower", !.table = <<[DefaultTable EXCEPT !.style = "TableStyleLight10"]>>,
                     !.fs = <<Fld("part_no"), [Fld("other") EXCEPT !.ser = Chars("kept"), !.de = Chars("kept")]>>]
      [] k = 8 -> [Plain0 EXCEPT !.name = "Generic", !.hf = TRUE, !.hx = Italic, !.table = <<[DefaultTable EXCEPT !.total = TRUE, !.banded = FALSE]>>,
                     !.fs = <<Fld("item"), [Fld("total") EXCEPT !.shown = Chars("Total"), !.skip = TRUE], Fld("last")>>]
      [] k = 9 -> [Plain0 EXCEPT !.name = "Lower", !.ser = "lower", !.de = "lower", !.fs = <<Fld("isA"), Fld("b_c")>>]
      [] k = 10 -> [Plain0 EXCEPT !.name = "kebab", !.ser = "kebab", !.de = "kebab",
                     !.fs = <<Fld("_x_y_"), [Fld("esc") EXCEPT !.ser = <<"%E9;">> \o Chars(" & <b>"), !.shown = Chars("x & <y>"), !.vf = TRUE, !.vx = [nfi |-> "9"]],
                              [Fld("_") EXCEPT !.id = <<"%E9;", "t", "%E9;", "_", "b">>]>>]
      [] OTHER -> [Plain0 EXCEPT !.name = "Optional", !.ser = "screaming", !.de = "screaming", !.fs = <<Fld("must"), [Fld("may_be") EXCEPT !.opt = TRUE], Fld("end")>>]
SerName(s, f) == IF f.ser # << >> THEN f.ser ELSE Renamed(s.ser, f.id)
DeName(s, f) == IF f.de # << >> THEN f.de ELSE Renamed(s.de, f.id)

----------------------------------------------------------------------------
(* What a struct asks for.                                                    *)
\* A column with its header, as given by hand or by default.
NoCustom == [field |-> "", h |-> "", low |-> "", n |-> 0, hf |-> FALSE, hx |-> NoFmt, cf |-> FALSE, cx |-> NoFmt, vf |-> FALSE, vx |-> NoFmt, skip |-> FALSE, w |-> << >>]
Default(nm) == [NoCustom EXCEPT !.field = nm.t, !.h = nm.t, !.low = nm.low, !.n = nm.n]
Given(x) == [field |-> x.field, h |-> x.h, low |-> x.low, n |-> x.n, hf |-> x.hf, hx |-> FmtOf(x.hx), cf |-> x.cf, cx |-> FmtOf(x.cx), vf |-> x.vf, vx |-> FmtOf(x.vx),
             skip |-> x.skip, w |-> x.w]
Shown(s, f) == LET nm == Name(SerName(s, f))
                   sh == IF f.shown = << >> THEN nm ELSE Name(f.shown) IN
               [field |-> nm.t, h |-> sh.t, low |-> sh.low, n |-> sh.n, hf |-> f.hf, hx |-> f.hx, cf |-> f.cf, cx |-> f.cx, vf |-> f.vf, vx |-> f.vx, skip |-> FALSE, w |-> f.w]
\* The fields of a value or of its type.
Sent(s, vs) == SelectSeq([k \in DOMAIN s.fs |-> <<s.fs[k], vs[k]>>], LAMBDA p : ~(p[1].gone \/ p[1].mute \/ (p[1].opt /\ p[2].absent)))
FieldNames(o) ==
    IF o.type.a = "t" THEN [k \in DOMAIN o.type.fs |-> o.type.fs[k].nm]
    ELSE LET s == Struct(o.type.k) IN
         IF o.via = "de" THEN LET fs == SelectSeq(s.fs, LAMBDA f : ~f.gone) IN [k \in DOMAIN fs |-> Name(DeName(s, fs[k]))]
         ELSE LET ps == Sent(s, o.type.vs) IN [k \in DOMAIN ps |-> Name(SerName(s, ps[k][1]))]
StructName(v) == IF v.a = "t" THEN v.name ELSE Struct(v.k).name

\* The header options of a call: [err, name, hf, hx, hide, table, cols].
Wanted(o) ==
    LET nm == FieldNames(o)
        base == [err |-> "", name |-> StructName(o.type), hf |-> TRUE, hx |-> IF Has(o, "hx") THEN FmtOf(o.hx) ELSE NoFmt, hide |-> FALSE, table |-> << >>,
                 cols |-> [k \in DOMAIN nm |-> Default(nm[k])]]
        s == Struct(o.type.k)
        own == SelectSeq(s.fs, LAMBDA f : ~(f.gone \/ f.mute \/ f.skip))
        x == o.want
        cust == [k \in DOMAIN x.cols |-> Given(x.cols[k])]
        known == {nm[k].t : k \in DOMAIN nm}
        pick(n) == LET ks == {k \in DOMAIN cust : cust[k].field = n.t} IN IF ks = {} THEN Default(n) ELSE cust[SetMax(ks)]
        merged == SelectSeq([k \in DOMAIN nm |-> pick(nm[k])], LAMBDA f : ~f.skip)
        opt == [base EXCEPT !.hf = x.hf, !.hx = FmtOf(x.hx), !.hide = x.hide, !.table = x.table]
    IN IF o.via = "set" /\ o.type.a = "m"
       THEN [base EXCEPT !.hf = s.hf, !.hx = s.hx, !.hide = s.hide, !.table = s.table, !.cols = [k \in DOMAIN own |-> Shown(s, own[k])]]
       ELSE IF o.via = "set" THEN [opt EXCEPT !.name = x.name, !.cols = cust]
       ELSE IF ~Has(o, "want") THEN base
       ELSE IF \E k \in DOMAIN cust : cust[k].field \notin known THEN [base EXCEPT !.err = "ParameterError"]
       ELSE [opt EXCEPT !.cols = IF x.only THEN cust ELSE merged]

----------------------------------------------------------------------------
(* Areas.                                                                     *)
AreaOf(ar, name) == LET ks == {k \in DOMAIN ar : ar[k].name = name} IN IF ks = {} THEN 0 ELSE SetMax(ks)
LastRow(a) == Max2(a.r1, a.next - 1)
\* The table of an area is added when the area is finished.
Finish(sh, a) ==
    IF a.t = << >>
    THEN \* Values added since the last save extend the table.
         OkS(IF a.ti = 0 THEN sh ELSE [sh EXCEPT !.tables[a.ti].r[3] = Max2(@, LastRow(a) + (IF sh.tables[a.ti].total THEN 1 ELSE 0))])
    ELSE WTable(sh, [a.t[1] EXCEPT !.r = a.r1, !.c = a.c1, !.r2 = LastRow(a) + (IF a.t[1].total THEN 1 ELSE 0), !.c2 = a.c2])
RECURSIVE FinishAll(_, _, _)
FinishAll(sh, ar, k) ==
    IF k > Len(ar) THEN [sh |-> sh, ar |-> ar, res |-> "ok"]
    ELSE LET w == Finish(sh, ar[k]) IN
         IF w[2] # "ok" THEN [sh |-> w[1], ar |-> ar, res |-> w[2]]
         ELSE FinishAll(w[1], [ar EXCEPT ![k].t = << >>, ![k].ti = IF ar[k].t = << >> THEN @ ELSE Len(w[1].tables)], k + 1)

\* The columns of an area, left to right, with the names a table gives them.
RECURSIVE HeadCols(_, _, _, _)
HeadCols(x, o, w, fs) ==
    IF fs = << >> \/ x.res # "ok" THEN x
    ELSE LET col == fs[1]
             c == o.c + x.k
             t == x.t
             tc == IF t = << >> \/ x.k + 1 > Len(t[1].cols) THEN [h |-> "", low |-> "", n |-> 0] ELSE [h |-> t[1].cols[x.k + 1].h, low |-> t[1].cols[x.k + 1].low, n |-> 1]
             h == IF tc.h # "" THEN tc ELSE [h |-> col.h, low |-> col.low, n |-> col.n]
             \* Worksheets which do not keep their cells note the names.
             t2 == IF t = << >> \/ tc.h # "" THEN t
                   ELSE LET old == t[1].cols
                            n == Max2(Len(old), x.k + 1)
                            pad == [m \in 1 .. n |-> IF m <= Len(old) THEN old[m] ELSE NoTableCol]
                        IN IF x.sh.mode = "std" \/ w.hide THEN t
                           ELSE <<[t[1] EXCEPT !.cols = [pad EXCEPT ![x.k + 1].h = col.h, ![x.k + 1].low = col.low]]>>
             s1 == IF col.w = << >> THEN OkS(x.sh) ELSE ColWidth(x.sh, c, col.w[1], FALSE)
             s2 == IF s1[2] # "ok" \/ ~col.cf THEN s1 ELSE ColGuard(s1[1], c, [ColOf(s1[1], c) EXCEPT !.x = col.cx, !.xs = TRUE])
             s3 == IF s2[2] # "ok" \/ w.hide THEN s2
                   ELSE LET hf == col.hf \/ w.hf
                            r == WString(s2[1], o.r, c, h.h, h.n, hf, IF col.hf THEN col.hx ELSE IF w.hf THEN w.hx ELSE NoFmt)
                        IN IF r[2] = "ok" /\ h.n > 0 /\ ~Settled(s2[1], o.r)
                           THEN <<[r[1] EXCEPT !.cells[<<o.r, c>>].e = <<h.low>>], "ok">> ELSE r
         IN HeadCols([x EXCEPT !.sh = s3[1], !.res = s3[2], !.t = t2, !.k = @ + 1,
                               !.fields = IF s3[2] = "ok" THEN Put(@, col.field, [c |-> c, vf |-> col.vf, vx |-> col.vx]) ELSE @], o, w, Tail(fs))

Blank == [r |-> 0, c |-> 0, r2 |-> 0, c2 |-> 0, serde |-> TRUE]
SerHead(sh, ar, o) ==
    LET w == Wanted(o)
        bad(e) == [sh |-> sh, ar |-> ar, res |-> "err:" \o e]
        fs == SelectSeq(w.cols, LAMBDA f : ~f.skip)
        t0 == IF w.table = << >> THEN << >> ELSE <<(Blank @@ w.table[1])>>
        t1 == IF t0 = << >> \/ ~w.hide THEN t0 ELSE <<[t0[1] EXCEPT !.header = FALSE]>>
        x == HeadCols([sh |-> sh, res |-> "ok", t |-> t1, k |-> 0, fields |-> Empty], o, w, fs)
        old == AreaOf(ar, w.name)
        f == IF old = 0 THEN OkS(x.sh) ELSE Finish(x.sh, ar[old])
        kept == [k \in 1 .. Len(ar) - (IF old = 0 THEN 0 ELSE 1) |-> IF old = 0 \/ k < old THEN ar[k] ELSE ar[k + 1]]
        area == [name |-> w.name, fields |-> x.fields, r1 |-> o.r, c1 |-> o.c, c2 |-> o.c + Max2(0, x.k - 1), next |-> o.r + (IF w.hide THEN 0 ELSE 1), t |-> x.t, ti |-> 0]
    IN IF w.err # "" THEN bad(w.err)
       ELSE IF ~InGrid(o.r, o.c) THEN bad("RowColumnLimitError")
       ELSE IF w.name = "" \/ w.cols = << >> THEN bad("ParameterError")
       ELSE IF x.res # "ok" THEN [sh |-> x.sh, ar |-> ar, res |-> x.res]
       ELSE IF f[2] # "ok" THEN [sh |-> f[1], ar |-> ar, res |-> f[2]]
       ELSE [sh |-> f[1], ar |-> Append(kept, area), res |-> "ok"]

----------------------------------------------------------------------------
(* Values: n number, s text, b boolean, - nothing, q sequence, t and m structs.  *)
Scalar(x, v) ==
    LET k == AreaOf(x.ar, x.name) IN
    IF k = 0 \/ v.a = "-" THEN x
    ELSE IF x.fld \notin DOMAIN x.ar[k].fields THEN x
    ELSE LET f == x.ar[k].fields[x.fld]
             r == CASE v.a = "n" -> WNumber(x.sh, x.row, f.c, v.x, f.vf, f.vx)
                    [] v.a = "s" -> WString(x.sh, x.row, f.c, v.x, v.n, f.vf, f.vx)
                    [] v.a = "b" -> WSimple(x.sh, x.row, f.c, "b", v.x, f.vf, f.vx, << >>)
         IN [x EXCEPT !.sh = r[1], !.res = r[2]]
RECURSIVE Ser(_, _), SerAll(_, _), SerFields(_, _)
SerAll(x, vs) == IF vs = << >> \/ x.res # "ok" THEN x ELSE SerAll(Ser(x, vs[1]), Tail(vs))
SerFields(x, fs) == IF fs = << >> \/ x.res # "ok" THEN x ELSE SerFields(Ser([x EXCEPT !.fld = fs[1][1]], fs[1][2]), Tail(fs))
Ser(x, v) ==
    CASE v.a = "q" -> SerAll(x, v.vs)
      [] v.a \in {"t", "m"} ->
            LET name == StructName(v)
                k == AreaOf(x.ar, name)
                \* A struct takes the next row of its area as soon as it starts.
                in == IF k = 0 THEN [x EXCEPT !.name = name] ELSE [x EXCEPT !.name = name, !.row = x.ar[k].next, !.ar[k].next = @ + 1]
                ps == IF v.a = "m" THEN Sent(Struct(v.k), v.vs) ELSE << >>
                fs == IF v.a = "t" THEN [m \in DOMAIN v.fs |-> <<v.fs[m].nm.t, v.fs[m].v>>]
                      ELSE [m \in DOMAIN ps |-> <<Join(SerName(Struct(v.k), ps[m][1])), ps[m][2]>>]
                out == SerFields(in, fs)
            IN [out EXCEPT !.name = x.name, !.fld = x.fld, !.row = x.row]
      [] OTHER -> Scalar(x, v)

----------------------------------------------------------------------------
SerOps == {"serhead", "ser", "serdims", "sercdims"}
\* Tables of areas are added by a save, worksheet by worksheet.
RECURSIVE FinishBook(_, _)
FinishBook(st, i) ==
    IF i > Len(st.sheets) THEN Ok(st)
    ELSE LET f == FinishAll(st.sheets[i], st.ser[i], 1)
             s2 == [st EXCEPT !.sheets[i] = f.sh, !.ser[i] = f.ar] IN
         IF f.res # "ok" THEN [st |-> s2, res |-> f.res] ELSE FinishBook(s2, i + 1)
DimRes(ar, o) ==
    LET k == AreaOf(ar, o.namex) IN
    IF k = 0 \/ (o.op = "sercdims" /\ o.fieldx \notin DOMAIN ar[k].fields) THEN "err:ParameterError" ELSE "ok"
SerialStep(st, o) ==
    CASE o.op = "add_sheet" -> Ok([GridStep(st, o).st EXCEPT !.ser = Append(@, << >>)])
      [] o.op = "save" -> LET f == FinishBook(st, 1) IN IF f.res # "ok" THEN f ELSE GridStep(f.st, o)
      [] o.op = "serhead" -> LET h == SerHead(st.sheets[o.s + 1], st.ser[o.s + 1], o) IN
                             [st |-> [st EXCEPT !.sheets[o.s + 1] = h.sh, !.ser[o.s + 1] = h.ar], res |-> h.res]
      [] o.op = "ser" -> LET x == Ser([sh |-> st.sheets[o.s + 1], ar |-> st.ser[o.s + 1], name |-> "", fld |-> "", row |-> 0, res |-> "ok"], o.tree) IN
                         [st |-> [st EXCEPT !.sheets[o.s + 1] = x.sh, !.ser[o.s + 1] = x.ar], res |-> x.res]
      [] o.op \in {"serdims", "sercdims"} -> [st |-> st, res |-> DimRes(st.ser[o.s + 1], o)]
      [] OTHER -> GridStep(st, o)

Dims(ar, o) == LET a == ar[AreaOf(ar, o.namex)]
                   c1 == IF o.op = "serdims" THEN a.c1 ELSE a.fields[o.fieldx].c
                   c2 == IF o.op = "serdims" THEN a.c2 ELSE c1
               IN <<a.r1, c1, LastRow(a), c2>>
SerialExpect(cs, st, o) ==
    CASE o.op \in {"serdims", "sercdims"} ->
            IF DimRes(st.ser[o.s + 1], o) # "ok" THEN {} ELSE LET d == Dims(st.ser[o.s + 1], o) IN {<<"val", S(k), S(d[k])>> : k \in 1 .. 4}
      [] OTHER -> GridFacts(st, Range(cs.view))
=============================================================================
