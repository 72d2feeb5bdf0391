-------------------------------- MODULE Book --------------------------------
(* The workbook around its cells: worksheets with their names, tabs and page  *)
(* settings, defined names, protection and document properties, and what each *)
(* save must write for them.                                                  *)
EXTENDS Grid, Refs, Bitwise

DigChars(n) == LET s == S(n) IN [k \in 1 .. Len(s) |-> SubSeq(s, k, k)]
NewTab(mode, nm, nl) ==
    [ mode |-> mode,
      nm |-> nm, nl |-> nl,      \* name as characters, and in lower case
      chart |-> {},              \* worksheets its charts take their data from
      act |-> FALSE, sel |-> FALSE, vis |-> "visible", first |-> FALSE,
      set |-> Empty,             \* setting -> value, where it differs from the default
      pa |-> << >>, rr |-> << >>, rc |-> << >>, af |-> << >>,
      prot |-> << >>,            \* << >> or <<options, hash>>
      ur |-> << >>,              \* unprotected ranges: <<range, name, hash>>
      ign |-> Empty, ignr |-> {} ]
BookInit(cs) == [tabs |-> << >>, cnt |-> 0, ccnt |-> 0, names |-> << >>, props |-> Empty, cust |-> << >>,
                 ro |-> FALSE, vba |-> "", macros |-> << >>, spare |-> Empty]

SHEETCH == <<"S", "h", "e", "e", "t">>
CHARTCH == <<"C", "h", "a", "r", "t">>

\* ---- password hashes ----
RECURSIVE XorAll(_, _)
Rot15(h) == ((h \div 16384) % 2) + ((2 * h) % 32768)
XorAll(h, bs) == IF bs = << >> THEN h ELSE XorAll(Rot15(h) ^^ bs[Len(bs)], SubSeq(bs, 1, Len(bs) - 1))
Hash(bs) == IF bs = << >> THEN 0 ELSE (Rot15(XorAll(0, bs)) ^^ Len(bs)) ^^ 52811
HEX == "0123456789ABCDEF"
Hex4(n) == LET d(k) == SubSeq(HEX, k + 1, k + 1) IN d(n \div 4096) \o d((n \div 256) % 16) \o d((n \div 16) % 16) \o d(n % 16)

PERMS == {"format_cells", "format_columns", "format_rows", "insert_columns", "insert_rows", "insert_links", "delete_columns",
          "delete_rows", "sort", "use_autofilter", "use_pivot_tables"}
PermAttr(p) == CASE p = "format_cells" -> "formatCells" [] p = "format_columns" -> "formatColumns" [] p = "format_rows" -> "formatRows"
                 [] p = "insert_columns" -> "insertColumns" [] p = "insert_rows" -> "insertRows" [] p = "insert_links" -> "insertHyperlinks"
                 [] p = "delete_columns" -> "deleteColumns" [] p = "delete_rows" -> "deleteRows" [] p = "sort" -> "sort"
                 [] p = "use_autofilter" -> "autoFilter" [] OTHER -> "pivotTables"
DefOpts == [p \in {"select_locked_cells", "select_unlocked_cells", "contents"} |-> TRUE]
OptOf(opts, p) == IF p \in DOMAIN opts THEN opts[p] ELSE IF p \in DOMAIN DefOpts THEN DefOpts[p] ELSE FALSE
TabProtFacts(t) ==
    IF t.prot = << >> THEN {}
    ELSE LET f == t.prot[1]
             pw == IF t.prot[2] = 0 THEN {} ELSE {<<"password", Hex4(t.prot[2])>>}
             on(p, a, v) == IF OptOf(f, p) THEN {<<a, v>>} ELSE {}
             off(p, a, v) == IF OptOf(f, p) THEN {} ELSE {<<a, v>>}
         IN pw \cup (IF t.mode = "chart" THEN on("contents", "content", "1") \cup on("edit_objects", "objects", "1") \cup {<<"on", "1">>}
                     ELSE {<<"on", "1">>, <<"sheet", "1">>} \cup off("edit_objects", "objects", "1") \cup off("edit_scenarios", "scenarios", "1")
                          \cup off("select_locked_cells", "selectLockedCells", "1") \cup off("select_unlocked_cells", "selectUnlockedCells", "1")
                          \cup UNION {on(p, PermAttr(p), "0") : p \in PERMS})

\* ---- headers: codes are stored in their short form ----
CODES == { << <<"&", "[", "T", "a", "b", "]">>, <<"&", "A">> >>, << <<"&", "[", "D", "a", "t", "e", "]">>, <<"&", "D">> >>,
           << <<"&", "[", "F", "i", "l", "e", "]">>, <<"&", "F">> >>, << <<"&", "[", "P", "a", "g", "e", "]">>, <<"&", "P">> >>,
           << <<"&", "[", "P", "a", "t", "h", "]">>, <<"&", "Z">> >>, << <<"&", "[", "T", "i", "m", "e", "]">>, <<"&", "T">> >>,
           << <<"&", "[", "P", "a", "g", "e", "s", "]">>, <<"&", "N">> >>, << <<"&", "[", "P", "i", "c", "t", "u", "r", "e", "]">>, <<"&", "G">> >> }
IsAt(cs, k, w) == k + Len(w) - 1 <= Len(cs) /\ SubSeq(cs, k, k + Len(w) - 1) = w
RECURSIVE ShortFrom(_, _)
ShortFrom(cs, k) ==
    IF k > Len(cs) THEN << >>
    ELSE IF cs[k] # "&" THEN <<cs[k]>> \o ShortFrom(cs, k + 1)
    ELSE LET m == {q \in CODES : IsAt(cs, k, q[1])} IN
         IF m = {} THEN <<cs[k]>> \o ShortFrom(cs, k + 1)
         ELSE LET q == CHOOSE q \in m : TRUE IN q[2] \o ShortFrom(cs, k + Len(q[1]))
Short(cs) == ShortFrom(cs, 1)

\* ---- settings ----
SetTo(t, k, v, default) == [t EXCEPT !.set = IF v = default THEN Del(@, {k}) ELSE Put(@, k, v)]
OkT(t) == <<t, "ok">>
ErrT(t, e) == <<t, "err:" \o e>>
Within(v, lo, hi) == v >= lo /\ v <= hi
TF(b) == IF b THEN "1" ELSE "0"
BreakErr(vs, max) == IF Cardinality(Range(vs) \ {0}) > 1023 THEN "ParameterError"
                     ELSE IF \E k \in DOMAIN vs : vs[k] >= max THEN "RowColumnLimitError" ELSE ""
RECURSIVE Listed(_)
Listed(s) == IF s = << >> THEN "" ELSE IF Len(s) = 1 THEN S(s[1]) ELSE S(s[1]) \o "," \o Listed(Tail(s))
VbaErr(cs) == IF cs = << >> \/ Len(cs) > 31 \/ (\E k \in DOMAIN cs : ~WordCh(cs[k])) \/ cs[1] \in DigSet \cup {"_", "%B2;"} THEN "VbaNameError" ELSE ""
\* Ranges given in any order.
Sorted4(o) == <<Min2(o.r, o.r2), Min2(o.c, o.c2), Max2(o.r, o.r2), Max2(o.c, o.c2)>>

\* Chartsheets are in landscape unless told otherwise, and let objects be edited.
Orient(t) == IF t.mode = "chart" THEN "landscape" ELSE "portrait"
OldOpts(t) == IF t.prot # << >> THEN t.prot[1] ELSE IF t.mode = "chart" THEN [edit_objects |-> TRUE] ELSE Empty

TabStep(t, o) ==
    LET op == o.op
        flag(k, default) == OkT(SetTo(t, k, TF(o.v), default))
    IN CASE op = "setname" -> IF NameErr(o.nc) # "" THEN ErrT(t, NameErr(o.nc)) ELSE OkT([t EXCEPT !.nm = o.nc, !.nl = o.nl])
         [] op = "active" -> OkT(IF o.v THEN [t EXCEPT !.act = TRUE, !.sel = TRUE, !.vis = "visible"] ELSE [t EXCEPT !.act = FALSE])
         [] op = "selected" -> OkT(IF o.v THEN [t EXCEPT !.sel = TRUE, !.vis = "visible"] ELSE [t EXCEPT !.sel = FALSE])
         [] op = "hidden" -> OkT(IF o.v THEN [t EXCEPT !.vis = "hidden", !.sel = FALSE, !.act = FALSE] ELSE [t EXCEPT !.vis = "visible"])
         [] op = "veryhidden" -> OkT(IF o.v THEN [t EXCEPT !.vis = "veryHidden", !.sel = FALSE, !.act = FALSE] ELSE [t EXCEPT !.vis = "visible"])
         [] op = "firsttab" -> OkT(IF o.v THEN [t EXCEPT !.first = TRUE, !.vis = "visible"] ELSE [t EXCEPT !.first = FALSE])
         [] op = "chart" -> IF t.mode # "chart" /\ ~InGrid(o.r, o.c) THEN ErrT(t, "RowColumnLimitError") ELSE OkT([t EXCEPT !.chart = IF t.mode = "chart" \/ (o.r = 0 /\ o.c = 0) THEN {o.refc} ELSE @ \cup {o.refc}])
         [] op = "rtl" -> flag("rtl", "0")
         [] op = "tabcolor" -> OkT(SetTo(t, "tabcolor", ColorOf(o.v), ""))
         [] op = "paper" -> OkT(SetTo(t, "paper", S(o.v), "0"))
         [] op = "pageorder" -> OkT(SetTo(t, "pageorder", IF o.v THEN "" ELSE "overThenDown", ""))
         [] op = "landscape" -> OkT(SetTo(t, "orient", "landscape", Orient(t)))
         [] op = "portrait" -> OkT(SetTo(t, "orient", "portrait", Orient(t)))
         [] op = "view" -> OkT(SetTo(t, "view", CASE o.v = "layout" -> "pageLayout" [] o.v = "breaks" -> "pageBreakPreview" [] OTHER -> "normal", "normal"))
         [] op \in {"breaks", "vbreaks"} ->
                LET max == IF op = "breaks" THEN ROWMAX ELSE COLMAX
                    e == BreakErr(o.vs, max)
                    s == SortedSeq(Range(o.vs) \ {0})
                IN IF e # "" THEN ErrT(t, e)
                   ELSE IF s = << >> THEN OkT(t) ELSE OkT(SetTo(t, op, Listed(s), ""))
         [] op = "zoom" -> OkT(IF Within(o.v, 10, 400) THEN SetTo(t, "zoom", S(o.v), "100") ELSE t)
         [] op = "freeze" -> IF ~InGrid(o.r, o.c) THEN ErrT(t, "RowColumnLimitError")
                             ELSE OkT([t EXCEPT !.set = Put(@, "freeze", <<o.r, o.c>>)])
         [] op = "freezetop" -> IF ~InGrid(o.r, o.c) THEN ErrT(t, "RowColumnLimitError")
                                ELSE OkT([t EXCEPT !.set = Put(@, "freezetop", <<o.r, o.c>>)])
         [] op \in {"header", "footer"} ->
                LET s == Short(o.tc) IN OkT(IF Len(s) > 255 THEN t ELSE SetTo(t, op, Join(s), ""))
         [] op \in {"hfscale", "hfalign"} -> flag(op, "1")
         [] op = "margins" ->
                LET names == <<"left", "right", "top", "bottom", "header", "footer">>
                    def == <<"0.7", "0.7", "0.75", "0.75", "0.3", "0.3">>
                    one(t2, k) == IF o.keep[k] THEN t2 ELSE SetTo(t2, "margin-" \o names[k], o.vs[k], def[k])
                IN OkT(FoldL(one, t, <<1, 2, 3, 4, 5, 6>>))
         [] op = "firstpage" -> OkT(SetTo(t, "firstpage", S(o.v), "0"))
         [] op = "pscale" -> OkT(IF Within(o.v, 10, 400) THEN SetTo([t EXCEPT !.set = Del(@, {"fit"})], "scale", S(o.v), "100") ELSE t)
         [] op = "pfit" -> OkT([SetTo(t, "scale", "100", "100") EXCEPT !.set = Put(@, "fit", <<o.w, o.h>>)])
         [] op \in {"pch", "pcv", "phead", "pgrid", "pbw", "pdraft", "symabove", "symleft", "hideunused"} -> flag(op, "0")
         [] op = "sgrid" -> flag(op, "1")
         [] op = "selection" ->
                IF ~InGrid(o.r, o.c) \/ ~InGrid(o.r2, o.c2) THEN ErrT(t, "RowColumnLimitError")
                ELSE LET q == Sorted4(o) IN
                     OkT(SetTo(t, "selection", Cell1(o.r, o.c) \o " " \o RangeRef(q[1], q[2], q[3], q[4]), "A1 A1"))
         [] op = "topleft" -> IF ~InGrid(o.r, o.c) THEN ErrT(t, "RowColumnLimitError") ELSE OkT(SetTo(t, "topleft", Cell1(o.r, o.c), "A1"))
         [] op = "vbaname" -> IF VbaErr(o.nc) # "" THEN ErrT(t, VbaErr(o.nc)) ELSE OkT(SetTo(t, "vbaname", Join(o.nc), ""))
         [] op = "parea" ->
                LET e == RangeErr(o.r, o.c, o.r2, o.c2) IN
                IF e # "" THEN ErrT(t, e)
                ELSE OkT([t EXCEPT !.pa = IF <<o.r, o.c, o.r2, o.c2>> = <<0, 0, ROWMAX - 1, COLMAX - 1>> THEN << >> ELSE <<o.r, o.c, o.r2, o.c2>>])
         [] op = "rrows" -> LET e == RangeErr(o.r, 0, o.r2, 0) IN IF e # "" THEN ErrT(t, e) ELSE OkT([t EXCEPT !.rr = <<o.r, o.r2>>])
         [] op = "rcols" -> LET e == RangeErr(0, o.c, 0, o.c2) IN IF e # "" THEN ErrT(t, e) ELSE OkT([t EXCEPT !.rc = <<o.c, o.c2>>])
         [] op = "autofilter" -> LET e == RangeErr(o.r, o.c, o.r2, o.c2) IN
                                 IF e # "" THEN ErrT(t, e) ELSE OkT([t EXCEPT !.af = <<o.r, o.c, o.r2, o.c2>>])
         [] op = "protect" -> OkT([t EXCEPT !.prot = <<OldOpts(t), IF Has(o, "pwb") THEN Hash(o.pwb) ELSE IF @ = << >> THEN 0 ELSE @[2]>>])
         [] op = "protectopt" -> OkT([t EXCEPT !.prot = <<o, IF @ = << >> THEN 0 ELSE @[2]>>])
         [] op = "unprotect" ->
                LET e == RangeErr(o.r, o.c, o.r2, o.c2)
                    name == IF Get(o, "namex", "") = "" THEN "Range" \o S(Len(t.ur) + 1) ELSE o.namex
                IN IF e # "" THEN ErrT(t, e)
                   ELSE OkT([t EXCEPT !.ur = Append(@, <<RangeRef(o.r, o.c, o.r2, o.c2), name, IF Has(o, "pwb") THEN Hash(o.pwb) ELSE 0>>)])
         [] op = "ignore" ->
                LET e == RangeErr(o.r, o.c, o.r2, o.c2)
                    R == RangeRef(o.r, o.c, o.r2, o.c2)
                IN IF e # "" THEN ErrT(t, e)
                   ELSE IF R \in t.ignr THEN ErrT(t, "ParameterError")
                   ELSE OkT([t EXCEPT !.ignr = @ \cup {R}, !.ign = Put(@, o.t, IF o.t \in DOMAIN @ THEN @[o.t] \o " " \o R ELSE R)])
         [] OTHER -> OkT(t)          \* cell contents: see Grid

\* ---- names ----
BadDefCh == {" ", ",", "/", "*", "[", "]", ":", "%22;", "'"}
DefName(o) == LET b == LastPos(o.namec, "!") IN SubSeq(o.namec, b + 1, Len(o.namec))
DefSheet(o) == LET b == LastPos(o.namec, "!") IN IF b = 0 THEN <<FALSE, << >> >> ELSE <<TRUE, SubSeq(o.namec, 1, b - 1)>>
DefErr(n) == IF n = << >> \/ n[1] \notin UpSet \cup LowSet \cup (WideWord \ {"%B2;"}) \cup {"_", "%5C;"} \/ (\E k \in DOMAIN n : n[k] \in BadDefCh)
             THEN "ParameterError" ELSE ""
SheetIx(st, nm) == LET ks == {k \in DOMAIN st.tabs : st.tabs[k].nm = nm} IN IF ks = {} THEN 0 ELSE SetMin(ks)
\* A local name belongs to the worksheet it names, quoted or not.
NameSheet(st, n) == SheetIx(st, Unquoted(n.sheet[2]))

\* ---- saving ----
SaveErr(st) ==
    IF \E a, b \in DOMAIN st.tabs : a # b /\ st.tabs[a].nl = st.tabs[b].nl THEN "SheetnameReused"
    ELSE IF \E a \in DOMAIN st.tabs : st.tabs[a].mode = "chart" /\ st.tabs[a].chart = {} THEN "ChartError"
    ELSE IF \E a \in DOMAIN st.tabs : \E q \in st.tabs[a].chart : SheetIx(st, q) = 0 THEN "UnknownWorksheetNameOrIndex"
    ELSE IF \E k \in DOMAIN st.names : st.names[k].sheet[1] /\ NameSheet(st, st.names[k]) = 0 THEN "ParameterError"
    ELSE ""
AddTab(st, mode) ==
    IF mode = "chart"
    THEN [st EXCEPT !.ccnt = @ + 1, !.tabs = Append(@, NewTab(mode, CHARTCH \o DigChars(st.ccnt + 1), "chart" \o S(st.ccnt + 1)))]
    ELSE [st EXCEPT !.cnt = @ + 1, !.tabs = Append(@, NewTab(mode, SHEETCH \o DigChars(st.cnt + 1), "sheet" \o S(st.cnt + 1)))]
Filled(st) == IF st.tabs = << >> THEN AddTab(st, "std") ELSE st

BookStep(st, o) ==
    LET n == Len(st.tabs) IN
    CASE o.op = "add_sheet" -> Ok(AddTab(st, o.mode))
      [] o.op = "new_spare" -> Ok([st EXCEPT !.spare = Put(@, o.name, NewTab(o.mode, << >>, ""))])
      [] o.op = "push_spare" ->
            LET t == st.spare[o.name]
                u == IF t.nm = << >> THEN [t EXCEPT !.nm = SHEETCH \o DigChars(n + 1), !.nl = "sheet" \o S(n + 1)] ELSE t
            IN Ok([st EXCEPT !.tabs = Append(@, u), !.spare = Del(@, {o.name})])
      [] o.op = "swap_sheets" -> Ok([st EXCEPT !.tabs = [k \in DOMAIN @ |-> @[IF k = o.a + 1 THEN o.b + 1 ELSE IF k = o.b + 1 THEN o.a + 1 ELSE k]]])
      [] o.op = "remove_sheet" -> Ok([st EXCEPT !.tabs = SubSeq(@, 1, o.i) \o SubSeq(@, o.i + 2, n)])
      [] o.op = "sheet_from_name" -> IF SheetIx(st, o.nc) = 0 THEN Err(st, "UnknownWorksheetNameOrIndex") ELSE Ok(st)
      [] o.op = "sheet_from_index" -> IF o.i >= n THEN Err(st, "UnknownWorksheetNameOrIndex") ELSE Ok(st)
      [] o.op = "sheet_names" -> Ok(st)
      [] o.op = "define_name" ->
            IF DefErr(DefName(o)) # "" THEN Err(st, DefErr(DefName(o)))
            ELSE Ok([st EXCEPT !.names = Append(@, [name |-> DefName(o), sheet |-> DefSheet(o), ref |-> IF o.vc # << >> /\ o.vc[1] = "=" THEN Tail(o.vc) ELSE o.vc])])
      [] o.op = "read_only_recommended" -> Ok([st EXCEPT !.ro = TRUE])
      [] o.op = "wb_vba_name" -> IF VbaErr(o.nc) # "" THEN Err(st, VbaErr(o.nc)) ELSE Ok([st EXCEPT !.vba = Join(o.nc)])
      [] o.op = "vba" ->     \* A project, and perhaps its signature, from files which may be missing.
            IF ~Has(o, "v") \/ Has(o, "nosig") THEN Err(st, "IoError")
            ELSE Ok([st EXCEPT !.macros = <<o.v, IF Has(o, "sig") THEN o.sig ELSE IF @ = << >> THEN "" ELSE @[2]>>, !.vba = IF @ = "" THEN "ThisWorkbook" ELSE @])
      [] o.op = "props" -> Ok([st EXCEPT !.props = o.p, !.cust = o.cust])
      [] o.op = "save" -> LET s2 == Filled(st) IN IF SaveErr(s2) # "" THEN Err(st, SaveErr(s2)) ELSE Ok(st)
      [] OTHER ->
            IF Has(o, "spare") THEN LET r == TabStep(st.spare[o.spare], o) IN [st |-> [st EXCEPT !.spare[o.spare] = r[1]], res |-> r[2]]
            ELSE IF o.s >= n THEN Err(st, "UnknownWorksheetNameOrIndex")
            ELSE LET r == TabStep(st.tabs[o.s + 1], o) IN [st |-> [st EXCEPT !.tabs[o.s + 1] = r[1]], res |-> r[2]]

----------------------------------------------------------------------------
(* What a save writes *)
LastWith(st, P(_)) == LET ks == {k \in DOMAIN st.tabs : P(st.tabs[k])} IN IF ks = {} THEN 0 ELSE SetMax(ks)
ActiveIx(st) == Max2(1, LastWith(st, LAMBDA t : t.act))
FirstIx(st) == Max2(1, LastWith(st, LAMBDA t : t.first))
TabFacts(st) ==
    LET a == ActiveIx(st) IN
    UNION {LET t == st.tabs[k] IN
           {<<"sheet", S(k), Join(t.nm), IF k = a THEN "visible" ELSE t.vis, IF t.mode = "chart" THEN "chartsheet" ELSE "worksheet">>}
           \cup (IF t.sel \/ k = a THEN {<<"selected", S(k)>>} ELSE {}) : k \in DOMAIN st.tabs}
    \cup {<<"active", S(a)>>, <<"first", S(FirstIx(st))>>}

ColsAbs(c, c2) == "$" \o ColName(c) \o ":$" \o ColName(c2)
RowsAbs(r, r2) == "$" \o S(r + 1) \o ":$" \o S(r2 + 1)
AreaAbs(q) == IF q[2] = 0 /\ q[4] = COLMAX - 1 THEN RowsAbs(q[1], q[3])
              ELSE IF q[1] = 0 /\ q[3] = ROWMAX - 1 THEN ColsAbs(q[2], q[4])
              ELSE RangeAbs(q[1], q[2], q[3], q[4])
\* <<name, scope, hidden, reference, application title or "">>
BuiltinNames(st) ==
    UNION {LET t == st.tabs[k]
               q == Quoted(t.nm) \o "!"
               titles == (IF t.rc # << >> THEN <<q \o ColsAbs(t.rc[1], t.rc[2])>> ELSE << >>) \o (IF t.rr # << >> THEN <<q \o RowsAbs(t.rr[1], t.rr[2])>> ELSE << >>)
           IN (IF t.af # << >> THEN {<<"_xlnm._FilterDatabase", S(k - 1), "1", q \o AreaAbs(t.af), "">>} ELSE {})
              \cup (IF t.pa # << >> THEN {<<"_xlnm.Print_Area", S(k - 1), "", q \o AreaAbs(t.pa), q \o "Print_Area">>} ELSE {})
              \cup (IF titles # << >> THEN {<<"_xlnm.Print_Titles", S(k - 1), "", IF Len(titles) = 1 THEN titles[1] ELSE titles[1] \o "," \o titles[2], q \o "Print_Titles">>} ELSE {})
           : k \in DOMAIN st.tabs}
\* Sequence of user names as they appear.
UserName(st, n) == <<Join(n.name), IF n.sheet[1] THEN S(NameSheet(st, n) - 1) ELSE "", "", Join(n.ref),
                     IF n.sheet[1] THEN Quoted(n.sheet[2]) \o "!" \o Join(n.name) ELSE IF LastPos(n.ref, "!") # 0 THEN Join(n.name) ELSE "">>
NameList(st) == [k \in DOMAIN st.names |-> UserName(st, st.names[k])]
NameRefs(st) == [k \in DOMAIN st.names |-> SubSeq(UserName(st, st.names[k]), 1, 4)]
Times(seq, x) == Cardinality({k \in DOMAIN seq : seq[k] = x})
NameFacts(st) == {<<"name", q[1], q[2], q[3], q[4], "1">> : q \in BuiltinNames(st)}
                 \cup {<<"name">> \o q \o <<S(Times(NameRefs(st), q))>> : q \in Range(NameRefs(st))}
AppFacts(st) ==
    LET shown(mode) == SelectSeq([k \in DOMAIN st.tabs |-> k], LAMBDA k : st.tabs[k].vis # "veryHidden" /\ (st.tabs[k].mode = "chart") = mode)
        a == ActiveIx(st)
        vis(k) == k = a \/ st.tabs[k].vis # "veryHidden"
        ws == SelectSeq([k \in DOMAIN st.tabs |-> k], LAMBDA k : vis(k) /\ st.tabs[k].mode # "chart")
        cs == SelectSeq([k \in DOMAIN st.tabs |-> k], LAMBDA k : vis(k) /\ st.tabs[k].mode = "chart")
        names == {q \in BuiltinNames(st) : q[5] # ""}
        user == SelectSeq(NameList(st), LAMBDA q : q[5] # "")
        nn == Cardinality(names) + Len(user)
        titles == [k \in DOMAIN user |-> user[k][5]]
    IN {<<"part", "sheet", S(k), Join(st.tabs[ws[k]].nm)>> : k \in DOMAIN ws}
       \cup {<<"part", "chart", S(k), Join(st.tabs[cs[k]].nm)>> : k \in DOMAIN cs}
       \cup {<<"part", "name", q[5], S(1 + Times(titles, q[5]))>> : q \in {q \in names : TRUE}}
       \cup {<<"part", "name", x, S(Times(titles, x))>> : x \in Range(titles) \ {q[5] : q \in names}}
       \cup (IF ws # << >> THEN {<<"pair", "Worksheets", S(Len(ws))>>} ELSE {})
       \cup (IF cs # << >> THEN {<<"pair", "Charts", S(Len(cs))>>} ELSE {})
       \cup (IF nn > 0 THEN {<<"pair", "Named Ranges", S(nn)>>} ELSE {})

\* Settings that need more than the stored text to be shown.
SetFacts(st, k) ==
    LET t == st.tabs[k]
        i == S(k)
        plain == {"rtl", "tabcolor", "paper", "pageorder", "orient", "view", "breaks", "vbreaks", "zoom", "header", "footer", "hfscale", "hfalign",
                  "margin-left", "margin-right", "margin-top", "margin-bottom", "margin-header", "margin-footer", "scale", "pch", "pcv", "phead", "pgrid",
                  "pbw", "pdraft", "sgrid", "selection", "topleft", "vbaname", "symabove", "symleft", "hideunused"}
        hidden == IF t.mode = "chart" THEN {"breaks", "vbreaks", "selection", "topleft", "symabove", "symleft", "hideunused", "pch", "pcv", "phead", "pgrid"} ELSE {}
        fz == Get(t.set, "freeze", <<0, 0>>)
        top == Get(t.set, "freezetop", <<0, 0>>)
        fcell == IF top = <<0, 0>> THEN fz ELSE top
        fp == Get(t.set, "firstpage", "0")
        fit == Get(t.set, "fit", << >>)
    IN {<<"set", i, x, t.set[x]>> : x \in (DOMAIN t.set \cap plain) \ hidden}
       \cup (IF st.macros # << >> /\ "vbaname" \notin DOMAIN t.set THEN {<<"set", i, "vbaname", "Sheet" \o i>>} ELSE {})
       \cup (IF fz = <<0, 0>> \/ t.mode = "chart" THEN {}
             ELSE {<<"set", i, "pane", S(fz[2]) \o "," \o S(fz[1]) \o "," \o Cell1(fcell[1], fcell[2]) \o ","
                    \o (IF fz[1] > 0 /\ fz[2] > 0 THEN "bottomRight" ELSE IF fz[2] > 0 THEN "topRight" ELSE "bottomLeft")>>})
       \cup (IF fp = "0" THEN {} ELSE {<<"set", i, "firstpage", fp>>})
       \cup (IF fit = << >> THEN {} ELSE {<<"set", i, "fit", S(fit[1]) \o "x" \o S(fit[2])>>})
       \cup {<<"ign", i, x, t.ign[x]>> : x \in DOMAIN t.ign}
DocFacts(st) ==
    {<<"doc", x, st.props[x]>> : x \in {x \in DOMAIN st.props : st.props[x] # ""}}
    \cup {<<"custom", S(k), st.cust[k][1], st.cust[k][2], st.cust[k][3]>> : k \in DOMAIN st.cust}
    \cup (IF st.ro THEN {<<"doc", "readonly", "1">>} ELSE {})
MacroFacts(st) == (IF st.vba # "" THEN {<<"wbvba", st.vba>>} ELSE {}) \cup (IF st.macros # << >> THEN {<<"macros">> \o st.macros} ELSE {})
BookFacts(st, view) ==
    (IF "tabs" \in view THEN TabFacts(st) ELSE {})
    \cup (IF "names" \in view THEN NameFacts(st) \cup AppFacts(st) ELSE {})
    \cup (IF "set" \in view THEN UNION {SetFacts(st, k) : k \in DOMAIN st.tabs} \cup MacroFacts(st) ELSE {})
    \cup (IF "prot" \in view THEN UNION {{<<"prot", S(k)>> \o x : x \in TabProtFacts(st.tabs[k])}
                                         \cup {<<"ur", S(k), S(n)>> \o <<st.tabs[k].ur[n][1], st.tabs[k].ur[n][2], IF st.tabs[k].ur[n][3] = 0 THEN "" ELSE Hex4(st.tabs[k].ur[n][3])>>
                                               : n \in DOMAIN st.tabs[k].ur} : k \in DOMAIN st.tabs} ELSE {})
    \cup (IF "doc" \in view THEN DocFacts(st) ELSE {})
BookExpect(cs, st, o) ==
    CASE o.op = "sheet_names" -> {<<"val", S(k), Join(st.tabs[k].nm)>> : k \in DOMAIN st.tabs}
      [] o.op = "sheet_from_name" -> {<<"val", Join(o.nc)>>}
      [] o.op = "sheet_from_index" -> {<<"val", Join(st.tabs[o.i + 1].nm)>>}
      [] o.op = "name" -> {<<"val", Join(st.tabs[o.s + 1].nm)>>}
      [] o.op = "save" -> BookFacts(Filled(st), Range(cs.view))
      [] OTHER -> {}
=============================================================================
