------------------------------ MODULE Objects ------------------------------
(* Objects placed on worksheets: images, charts, text boxes, buttons, notes,  *)
(* embedded, background and header images; and where rows and columns of any  *)
(* size put them.                                                             *)
EXTENDS Grid, Links

----------------------------------------------------------------------------
(* State: "sheets" is that of the grid; "objs" runs parallel to it.           *)
NoObjs == [img |-> Empty, ch |-> Empty, shp |-> Empty, btn |-> Empty,   \* <<r, c, yoff, xoff>> -> object
           note |-> Empty,                                               \* <<r, c>> -> note
           bg |-> << >>, hf |-> Empty,                                   \* background image; "header"/"footer", position -> image
           showall |-> FALSE, author |-> "Author", header |-> << >>, footer |-> << >>]
ObjInit(cs) == GridInit(cs) @@ [objs |-> << >>]

Key(sh, o) == IF sh.mode = "chart" THEN <<0, 0, 0, 0>> ELSE <<o.r, o.c, o.yo, o.xo>>
PlaceErr(sh, o) == IF ~InGrid(o.r, o.c) THEN "RowColumnLimitError" ELSE ""

\* A header image needs exactly one section of its position, with a picture code in it.
Marks(t, a, b) == {k \in 1 .. Len(t) - 1 : t[k] = a /\ t[k + 1] = b}
Starts(t, w) == {k \in 1 .. Len(t) - Len(w) + 1 : SubSeq(t, k, k + Len(w) - 1) = w}
PICTURE == <<"&", "[", "P", "i", "c", "t", "u", "r", "e", "]">>
PictureIn(t, pos) ==
    LET own == Marks(t, "&", pos)
        start == SetMin(own) + 2
        ends == {k \in UNION {Marks(t, "&", q) : q \in {"L", "C", "R"} \ {pos}} : k >= start}
        stop == IF ends = {} THEN Len(t) ELSE SetMin(ends) - 1
        seg == SubSeq(t, start, stop)
    IN Cardinality(own) = 1 /\ (Marks(seg, "&", "G") # {} \/ Starts(seg, PICTURE) # {})

----------------------------------------------------------------------------
(* Geometry.  Distances are pixels; sizes are in units of 1/300 pixel.        *)
\* Hidden rows and columns take no room, except for objects that are to be
\* sized as if they were shown.
PxCol(sh, c, after) ==
    IF c \notin DOMAIN sh.cols THEN 64
    ELSE IF sh.cols[c].hid /\ ~after THEN 0 ELSE IF sh.cols[c].wd = "" THEN 64 ELSE sh.cols[c].px
PxRow(sh, r, after) ==
    IF r \notin DOMAIN sh.rows THEN sh.defhp ELSE IF sh.rows[r].hid /\ ~after THEN 0 ELSE sh.rows[r].hp
RECURSIVE SumOver(_, _)
SumOver(F(_), s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN F(x) + SumOver(F, s \ {x})
AbsX(sh, c, after) == LET cs == {k \in DOMAIN sh.cols : k < c} IN 64 * (c - Cardinality(cs)) + SumOver(LAMBDA k : PxCol(sh, k, after), cs)
AbsY(sh, r, after) == LET rs == {k \in DOMAIN sh.rows : k < r} IN sh.defhp * (r - Cardinality(rs)) + SumOver(LAMBDA k : PxRow(sh, k, after), rs)
RECURSIVE Walk(_, _, _)
\* The cell and remaining distance reached by moving d (in units u per pixel) from cell k.
Walk(Size(_), k, d) == LET w == Size(k) IN IF d >= w THEN Walk(Size, k + 1, d - w) ELSE <<k, d>>
Emu(u) == (u * 127 + 2) \div 4        \* 9525 EMU per pixel, rounded

\* [fc, fx, fr, fy] in pixels and [tc, tx, tr, ty] in units.
Anchor(sh, r, c, xo, yo, w, h, after) ==
    LET f1 == Walk(LAMBDA k : PxCol(sh, k, after), c, xo)
        f2 == Walk(LAMBDA k : PxRow(sh, k, after), r, yo)
        t1 == Walk(LAMBDA k : 300 * PxCol(sh, k, after), f1[1], f1[2] * 300 + w)
        t2 == Walk(LAMBDA k : 300 * PxRow(sh, k, after), f2[1], f2[2] * 300 + h)
    IN [fc |-> f1[1], fx |-> f1[2], fr |-> f2[1], fy |-> f2[2], tc |-> t1[1], tx |-> t1[2], tr |-> t2[1], ty |-> t2[2],
        ax |-> AbsX(sh, c, after) + xo, ay |-> AbsY(sh, r, after) + yo]

----------------------------------------------------------------------------
(* One operation.  Returns <<grid sheet, objects, result>>.                   *)
UrlErr(o) == IF ~Has(o, "uc") THEN "" ELSE IF LinkOf(o.uc).err # "" THEN LinkOf(o.uc).err
             ELSE IF o.tipn > 255 THEN "ParameterError" ELSE ""
ObjOps == {"image", "fit", "ochart", "shape", "button", "note", "shownotes", "noteauthor", "bgimg", "hfimg", "header", "footer", "embed", "badimg"}
ObjStep(sh, ob, o) ==
    LET op == o.op
        ok(ob2) == <<sh, ob2, "ok">>
        err(e) == <<sh, ob, "err:" \o e>>
    IN CASE op \in {"image", "fit", "shape", "button", "ochart"} ->
              LET what == CASE op \in {"image", "fit"} -> o.img [] OTHER -> o
                  uerr == UrlErr(what)
                  cw == PxCol(sh, o.c, what.mv = "after")
                  rh == PxRow(sh, o.r, what.mv = "after")
                  \* fitted to the cell as it is now: the image is at 96 dpi
                  fw == IF o.keep /\ rh * what.w < cw * what.h THEN (what.w * rh * 300) \div what.h ELSE cw * 300
                  fh == IF o.keep /\ cw * what.h < rh * what.w THEN (what.h * cw * 300) \div what.w ELSE rh * 300
                  obj == IF op # "fit" \/ cw = 0 \/ rh = 0 THEN what ELSE [what EXCEPT !.wu = fw, !.hu = fh]
                  k == Key(sh, o)
              IN IF uerr # "" THEN err(uerr)
                 ELSE IF PlaceErr(sh, o) # "" THEN err(PlaceErr(sh, o))
                 ELSE IF op = "ochart" /\ o.nser = 0 THEN err("ChartError")
                 ELSE ok(CASE op \in {"image", "fit"} -> [ob EXCEPT !.img = Put(@, k, obj)]
                           [] op = "shape" -> [ob EXCEPT !.shp = Put(@, k, obj)]
                           [] op = "button" -> [ob EXCEPT !.btn = Put(@, k, obj)]
                           [] op = "ochart" -> [ob EXCEPT !.ch = Put(@, k, obj)])
         [] op = "note" ->
              IF ~InGrid(o.r, o.c) THEN err("RowColumnLimitError")
              ELSE IF o.textn > 32767 - 54 THEN err("MaxStringLengthExceeded")
              ELSE ok([ob EXCEPT !.note = Put(@, <<o.r, o.c>>, o)])
         [] op = "shownotes" -> ok([ob EXCEPT !.showall = o.v])
         [] op = "noteauthor" -> ok(IF o.vn > 52 THEN ob ELSE [ob EXCEPT !.author = o.vx])
         [] op = "bgimg" -> ok([ob EXCEPT !.bg = <<o.img>>])
         [] op \in {"header", "footer"} -> ok(IF op = "header" THEN [ob EXCEPT !.header = o.tc] ELSE [ob EXCEPT !.footer = o.tc])
         [] op = "hfimg" ->
              IF PictureIn(IF o.which = "header" THEN ob.header ELSE ob.footer, o.pos)
              THEN ok([ob EXCEPT !.hf = Put(@, <<o.which, o.pos>>, o.img)]) ELSE err("ParameterError")
         [] op = "badimg" -> err(o.why)
         [] op = "embed" ->
              LET uerr == UrlErr(o.img)
                  hasurl == Has(o.img, "uc")
                  l == IF hasurl THEN LinkOf(o.img.uc) ELSE [target |-> "", loc |-> ""]
                  x == IF Flag(o, "hf") THEN FmtOf(o.f) ELSE IF hasurl THEN HyperFmt ELSE RowColFmt(sh, o.r, o.c)
                  s2 == PutCell(sh, o.r, o.c, Cell("v", "#VALUE!", x, <<o.img>>))
              IN IF uerr # "" THEN err(uerr)
                 ELSE IF ~InGrid(o.r, o.c) THEN err("RowColumnLimitError")
                 ELSE IF sh.mode = "const" /\ o.r < sh.cur THEN err("ParameterError")
                 ELSE <<IF hasurl /\ ~Settled(sh, o.r) THEN [s2 EXCEPT !.links = Put(@, <<o.r, o.c>>, <<l.target, l.loc, o.img.tipx>>)] ELSE s2, ob, "ok">>

ObjectsStep(st, o) ==
    IF o.op = "add_sheet" THEN LET r == GridStep(st, o) IN [r EXCEPT !.st.objs = Append(@, NoObjs)]
    ELSE IF o.op \in ObjOps
    THEN LET r == ObjStep(st.sheets[o.s + 1], st.objs[o.s + 1], o) IN
         [st |-> [st EXCEPT !.sheets[o.s + 1] = r[1], !.objs[o.s + 1] = r[2]], res |-> r[3]]
    ELSE IF o.op = "save" /\ \E i \in DOMAIN st.sheets : st.sheets[i].mode = "chart" /\ st.objs[i].ch = Empty THEN Err(st, "ChartError")
    ELSE GridStep(st, o)

----------------------------------------------------------------------------
(* Facts.  Objects with the same facts are counted.                           *)
Counted(f) == {f[k] \o <<S(Cardinality({j \in DOMAIN f : f[j] = f[k]}))>> : k \in DOMAIN f}
EditAs(mv) == CASE mv = "move" -> "oneCell" [] mv = "none" -> "absolute" [] OTHER -> ""
UrlOf(o) == IF Has(o, "uc") THEN <<ObjTarget(o.uc), o.tipx>> ELSE <<"", "">>
After(o) == o.mv = "after"
At(sh, k, o) == LET a == Anchor(sh, k[1], k[2], k[4], k[3], o.wu, o.hu, After(o)) IN
                <<S(a.fc), S(Emu(a.fx * 300)), S(a.fr), S(Emu(a.fy * 300))>>

ImgFacts(i, sh, f) == Counted([k \in DOMAIN f |-> <<"image", i>> \o At(sh, k, f[k]) \o <<f[k].mid, f[k].altx, NAT(f[k].deco), EditAs(f[k].mv)>> \o UrlOf(f[k])])
ChartFacts(i, sh, f) ==
    Counted([k \in DOMAIN f |-> <<"chart", i>> \o (IF sh.mode = "chart" THEN <<"", "", "", "">> ELSE At(sh, k, f[k]))
                \o <<f[k].titlex, f[k].type, S(f[k].nser), f[k].altx, NAT(f[k].deco), f[k].namex, IF sh.mode = "chart" THEN "" ELSE EditAs(f[k].mv)>>])
ShapeFacts(i, sh, f) ==
    Counted([k \in DOMAIN f |-> <<"shape", i>> \o At(sh, k, f[k]) \o <<f[k].textx, f[k].linkx, f[k].altx, EditAs(f[k].mv)>> \o UrlOf(f[k])
                \o [n \in DOMAIN f[k].style |-> f[k].style[n][1] \o "=" \o f[k].style[n][2]]])
\* Buttons are numbered from the top left.
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ (a[3] < b[3] \/ (a[3] = b[3] /\ a[4] < b[4])))))
ButtonFacts(i, sh, f) ==
    Counted([k \in DOMAIN f |->
        LET n == S(1 + Cardinality({j \in DOMAIN f : Before(j, k)}))
            a == Anchor(sh, k[1], k[2], k[4], k[3], f[k].wu, f[k].hu, After(f[k]))
        IN <<"button", i, S(a.fc), S(a.fx), S(a.fr), S(a.fy), IF f[k].capx = "" THEN "Button " \o n ELSE f[k].capx,
             "[0]!" \o (IF f[k].macx = "" THEN "Button" \o n \o "_Click" ELSE f[k].macx), f[k].altx>>])
NoteFacts(i, ob) ==
    {LET o == ob.note[p]
         author == IF o.authorx # "" THEN o.authorx ELSE ob.author
         vis == IF o.vis # "" THEN o.vis ELSE NAT(ob.showall)
     IN <<"note", i, S(p[1]), S(p[2]), author, IF o.prefix THEN author \o ":" ELSE "", o.textx,
          vis, o.bg, o.fn, o.fs, o.fam, o.altx>> : p \in DOMAIN ob.note}
Pos3(p) == (CASE p[2] = "L" -> "L" [] p[2] = "C" -> "C" [] OTHER -> "R") \o (IF p[1] = "header" THEN "H" ELSE "F")
Vml(u) == S((u + 75) \div 300)
HfFacts(i, ob) == {<<"hf", i, Pos3(p), ob.hf[p].mid, Vml(ob.hf[p].wu), Vml(ob.hf[p].hu), NAT(ob.hf[p].scaled)>> : p \in DOMAIN ob.hf}
EmbedFacts(i, sh) == {LET c == sh.cells[p] IN <<"embed", i, S(p[1]), S(p[2]), c.e[1].mid, c.e[1].altx, NAT(c.e[1].deco)>>
                      : p \in {q \in DOMAIN sh.cells : sh.cells[q].k = "v"}}

\* Where a note box is drawn for its cell.
NoteBox(p) ==
    [r |-> IF p[1] = 0 THEN 0 ELSE IF p[1] >= ROWMAX - 3 THEN p[1] - 4 ELSE p[1] - 1,
     c |-> IF p[2] >= COLMAX - 3 THEN p[2] - 3 ELSE p[2] + 1,
     x |-> IF p[2] >= COLMAX - 3 THEN 49 ELSE 15,
     y |-> IF p[1] = 0 THEN 2 ELSE IF p[1] = ROWMAX - 1 THEN 14 ELSE IF p[1] >= ROWMAX - 3 THEN 16 ELSE 10]

Drawn(i, class, sh, k, o, ident) ==
    LET a == Anchor(sh, k[1], k[2], k[4], k[3], o.wu, o.hu, After(o)) IN
    <<"geo", i, class, ident, S(a.fc), S(Emu(a.fx * 300)), S(a.fr), S(Emu(a.fy * 300)), S(a.tc), S(Emu(a.tx)), S(a.tr), S(Emu(a.ty)), EditAs(o.mv)>>
    \o (IF class = "chart" THEN << >> ELSE <<S(a.ax), S(a.ay), S(Emu(o.wu)), S(Emu(o.hu))>>)
VmlDrawn(i, class, ident, a, w, h) ==
    <<"geo", i, class, ident, S(a.fc), S(a.fx), S(a.fr), S(a.fy), S(a.tc), S(a.tx \div 300), S(a.tr), S(a.ty \div 300),
      S(a.ax), S(a.ay), S(w \div 300), S(h \div 300)>>
GeoFacts(i, sh, ob) ==
    Counted([k \in DOMAIN ob.img |-> Drawn(i, "image", sh, k, ob.img[k], ob.img[k].mid)])
    \cup (IF sh.mode = "chart" THEN {} ELSE Counted([k \in DOMAIN ob.ch |-> Drawn(i, "chart", sh, k, ob.ch[k], ob.ch[k].titlex)]))
    \cup Counted([k \in DOMAIN ob.shp |-> Drawn(i, "shape", sh, k, ob.shp[k], ob.shp[k].textx)])
    \cup Counted([k \in DOMAIN ob.btn |-> LET o == ob.btn[k] IN
                    VmlDrawn(i, "button", o.altx, Anchor(sh, k[1], k[2], k[4], k[3], o.wu, o.hu, After(o)), o.wu, o.hu)])
    \cup Counted([p \in DOMAIN ob.note |-> LET o == ob.note[p] b == NoteBox(p) IN
                    VmlDrawn(i, "note", S(p[1]) \o "," \o S(p[2]), Anchor(sh, b.r, b.c, b.x, b.y, o.wu, o.hu, FALSE), o.wu, o.hu)])

ObjFacts(i, sh, ob) ==
    ImgFacts(i, sh, ob.img) \cup ChartFacts(i, sh, ob.ch) \cup ShapeFacts(i, sh, ob.shp) \cup ButtonFacts(i, sh, ob.btn)
    \cup NoteFacts(i, ob) \cup HfFacts(i, ob) \cup EmbedFacts(i, sh)
    \cup (IF ob.bg = << >> THEN {} ELSE {<<"background", i, ob.bg[1].mid>>})
ObjectsExpect(cs, st, o) ==
    LET view == Range(cs.view) IN
    UNION {LET i == S(n) IN
           (IF "obj" \in view THEN ObjFacts(i, st.sheets[n], st.objs[n]) ELSE {})
           \cup (IF "geo" \in view THEN GeoFacts(i, st.sheets[n], st.objs[n]) ELSE {})
           : n \in DOMAIN st.sheets}
    \cup GridFacts(st, view \ {"obj", "geo"})
=============================================================================
