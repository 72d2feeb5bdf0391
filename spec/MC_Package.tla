----------------------------- MODULE MC_Package -----------------------------
(* Every short history of putting things on a worksheet, a worksheet in      *)
(* constant memory and a chartsheet, and saving in between.  Assemble(st) is *)
(* the package such a history must lead to: it has none of the defects which *)
(* are looked for in the files of the library, and as many parts of each     *)
(* kind as Counts(st) says.                                                  *)
EXTENDS Package, Json
CONSTANTS Depth
VARIABLES st, hist
vars == <<st, hist>>
SpecView == <<[st EXCEPT !.n = 0], Len(hist)>>

Modes == <<"std", "const", "chart">>
\* A feature and the edit which stands for it.
Use(f, op) == [f |-> f, o |-> [op |-> op]]
OnSheets == {Use("str", "str"), Use("link", "url"), Use("image", "image"), Use("image2", "image"), Use("imagelink", "image"), Use("imagealt", "image"),
             Use("embed", "embed"), Use("bgimg", "bgimg"), Use("hfimg", "hfimg"), Use("ochart", "ochart"), Use("chartlink", "ochart"), Use("shape", "shape"),
             Use("shapelink", "shape"), Use("button", "button"), Use("note", "note"), Use("table", "table"), Use("tablefmt", "table"), Use("cfbar", "cf"),
             Use("sparkline", "sparkline"), Use("checkbox", "checkbox"), Use("dynamic", "dynformula"), Use("fmt", "num"), Use("colorfilter", "autofilter"),
             Use("printarea", "parea"), Use("codename", "vbaname"), Use("rich", "rich")}
OnCharts == {"hfimg", "codename"}
OfBooks == {Use("vba", "vba"), [f |-> "signed", o |-> [op |-> "vba", sig |-> "s"]], [f |-> "custom", o |-> [op |-> "props", custom |-> <<1>>]], Use("define", "define_name"),
            Use("save", "save")}
Alpha == {[s |-> s, f |-> p.f, o |-> p.o @@ [s |-> s]] : s \in {0, 1}, p \in OnSheets}
         \cup {[s |-> 2, f |-> p.f, o |-> p.o @@ [s |-> 2]] : p \in {x \in OnSheets : x.f \in OnCharts}}
         \cup {[s |-> 0, f |-> p.f, o |-> p.o] : p \in OfBooks}
Allowed(a) == ~(a.f = "embed" /\ a.s = 1)

Apply(s, ops) == FoldL(LAMBDA x, o : PackStep(x, o).st, s, ops)
Init == /\ st = Apply(PackInit([res |-> [k \in 1 .. 20 |-> "ok"]]), [k \in DOMAIN Modes |-> [op |-> "add_sheet", mode |-> Modes[k]]] \o << [op |-> "ochart", s |-> 2] >>)
        /\ hist = << >>
Next == /\ Len(hist) < Depth
        /\ \E a \in Alpha : /\ Allowed(a)
                            /\ st' = PackStep(st, a.o).st
                            /\ hist' = Append(hist, [s |-> a.s, f |-> a.f])
                            /\ PrintT("@@HIST " \o ToJson(hist'))

(*------------------------------ the package of a state ------------------------------*)
Ts == st.tabs
Tabs == DOMAIN Ts
Rank(P(_), k) == Cardinality({j \in Tabs : j <= k /\ P(j)})
Dig(n) == ToString(n)
IsChart(k) == Ts[k].mode = "chart"
Sheet(k) == IF IsChart(k) THEN "xl/chartsheets/sheet" \o Dig(Rank(IsChart, k)) \o ".xml" ELSE "xl/worksheets/sheet" \o Dig(Rank(LAMBDA j : ~IsChart(j), k)) \o ".xml"
HasDrawing(k) == Ts[k].drawn > 0
Drawing(k) == "xl/drawings/drawing" \o Dig(Rank(HasDrawing, k)) \o ".xml"
HasVml(k) == Ts[k].notes + Ts[k].buttons > 0
HasHeader(k) == Ts[k].headers > 0
VmlBefore(k) == Cardinality({j \in Tabs : j < k /\ HasVml(j)}) + Cardinality({j \in Tabs : j < k /\ HasHeader(j)})
Vml(k) == "xl/drawings/vmlDrawing" \o Dig(VmlBefore(k) + 1) \o ".vml"
HeaderVml(k) == "xl/drawings/vmlDrawing" \o Dig(VmlBefore(k) + 1 + (IF HasVml(k) THEN 1 ELSE 0)) \o ".vml"
HasNotes(k) == Ts[k].notes > 0
Notes(k) == "xl/comments" \o Dig(Rank(HasNotes, k)) \o ".xml"
Sum(f(_), k) == FoldL(LAMBDA a, j : a + f(j), 0, [j \in 1 .. k |-> j])
Chart(k, n) == "xl/charts/chart" \o Dig(Sum(LAMBDA j : Ts[j].charts, k - 1) + n) \o ".xml"
Table(k, n) == "xl/tables/table" \o Dig(Sum(LAMBDA j : Ts[j].tables, k - 1) + n) \o ".xml"
Image == "xl/media/image1.png"
Embeds == \E k \in Tabs : Ts[k].embeds > 0
Pics == Embeds \/ \E k \in Tabs : Ts[k].drawn > Ts[k].charts \/ HasHeader(k)

Part(n, e, t, root) == {<<"part", n, e>>, <<"magic", n, LooksLike(t)>>} \cup (IF root = "" THEN {} ELSE {<<"root", n, root>>})
XmlPart(n, t) == Part(n, "xml", t, RootOf[t]) \cup {<<"override", n, t, "rooted">>}
Rel(source, id, type, target) == {<<"rel", source, id, type, "Internal", target>>}
Used(source, id, by) == {<<"use", source, id, by>>}
\* A part which the relationship of this type from the source leads to.
To(source, id, type, n, t) == XmlPart(n, t) \cup Rel(source, id, Doc \o type, n)
BookPart == "xl/workbook.xml"
IsMacro == st.vba
SheetFacts(k) ==
    LET me == Sheet(k)
    IN To(BookPart, "s" \o Dig(k), IF IsChart(k) THEN "chartsheet" ELSE "worksheet", me, IF IsChart(k) THEN ChartsheetT ELSE WorksheetT)
       \cup Used(BookPart, "s" \o Dig(k), "x:sheet")
       \cup (IF ~HasDrawing(k) THEN {}
             ELSE To(me, "d", "drawing", Drawing(k), DrawingT) \cup Used(me, "d", "x:drawing")
                  \cup UNION {To(Drawing(k), "c" \o Dig(n), "chart", Chart(k, n), ChartT) \cup Used(Drawing(k), "c" \o Dig(n), "c:chart") : n \in 1 .. Ts[k].charts}
                  \cup (IF Ts[k].drawn > Ts[k].charts THEN Rel(Drawing(k), "i", Doc \o "image", Image) \cup Used(Drawing(k), "i", "a:blip") ELSE {}))
       \cup (IF HasVml(k) THEN Part(Vml(k), "vml", VmlT, "") \cup Rel(me, "v", Doc \o "vmlDrawing", Vml(k)) \cup Used(me, "v", "x:legacyDrawing") ELSE {})
       \cup (IF HasNotes(k) THEN To(me, "n", "comments", Notes(k), CommentsT) ELSE {})
       \cup (IF HasHeader(k) THEN Part(HeaderVml(k), "vml", VmlT, "") \cup Rel(me, "h", Doc \o "vmlDrawing", HeaderVml(k)) \cup Used(me, "h", "x:legacyDrawingHF")
                                  \cup Rel(HeaderVml(k), "i", Doc \o "image", Image) \cup Used(HeaderVml(k), "i", "v:imagedata") ELSE {})
       \cup UNION {To(me, "t" \o Dig(n), "table", Table(k, n), TableT) \cup Used(me, "t" \o Dig(n), "x:tablePart") : n \in 1 .. Ts[k].tables}
RichValues == "http://schemas.microsoft.com/office/2017/06/relationships/rdRichValue"
Assemble ==
    Part(BookPart, "xml", Plain, "x:workbook") \cup {<<"override", BookPart, IF IsMacro THEN Macro ELSE Plain, "rooted">>}
    \cup Rel("", "r1", Doc \o "officeDocument", BookPart)
    \cup To("", "r2", "extended-properties", "docProps/app.xml", Xml \o "extended-properties+xml")
    \cup XmlPart("docProps/core.xml", "application/vnd.openxmlformats-package.core-properties+xml") \cup Rel("", "r3", Pkg \o "metadata/core-properties", "docProps/core.xml")
    \cup To(BookPart, "t", "theme", "xl/theme/theme1.xml", Xml \o "theme+xml") \cup To(BookPart, "y", "styles", "xl/styles.xml", Sp \o "styles+xml")
    \cup (IF st.custom THEN To("", "r4", "custom-properties", "docProps/custom.xml", CustomT) ELSE {})
    \cup UNION {SheetFacts(k) : k \in Tabs}
    \cup (IF Pics THEN Part(Image, "png", "image/png", "") ELSE {})
    \cup (IF Embeds \/ st.dyn THEN To(BookPart, "m", "sheetMetadata", "xl/metadata.xml", MetadataT) ELSE {})
    \cup (IF Embeds THEN XmlPart("xl/richData/richValueRel.xml", RichRelT)
                         \cup Rel(BookPart, "e1", "http://schemas.microsoft.com/office/2022/10/relationships/richValueRel", "xl/richData/richValueRel.xml")
                         \cup Rel("xl/richData/richValueRel.xml", "i", Doc \o "image", Image) \cup Used("xl/richData/richValueRel.xml", "i", "rvr:rel")
                         \cup XmlPart("xl/richData/rdrichvalue.xml", Ms \o "rdrichvalue+xml") \cup Rel(BookPart, "e2", RichValues, "xl/richData/rdrichvalue.xml")
                         \cup XmlPart("xl/richData/rdrichvaluestructure.xml", Ms \o "rdrichvaluestructure+xml") \cup Rel(BookPart, "e3", RichValues \o "Structure", "xl/richData/rdrichvaluestructure.xml")
                         \cup XmlPart("xl/richData/rdRichValueTypes.xml", Ms \o "rdrichvaluetypes+xml") \cup Rel(BookPart, "e4", RichValues \o "Types", "xl/richData/rdRichValueTypes.xml")
          ELSE {})
    \cup (IF st.bag THEN XmlPart("xl/featurePropertyBag/featurePropertyBag.xml", BagT)
                         \cup Rel(BookPart, "b", "http://schemas.microsoft.com/office/2022/11/relationships/FeaturePropertyBag", "xl/featurePropertyBag/featurePropertyBag.xml") ELSE {})
    \cup (IF st.vba THEN Part("xl/vbaProject.bin", "bin", VbaT, "") \cup Rel(BookPart, "v", "http://schemas.microsoft.com/office/2006/relationships/vbaProject", "xl/vbaProject.bin") ELSE {})
    \cup (IF st.sig THEN Part("xl/vbaProjectSignature.bin", "bin", SignatureT, "") \cup {<<"override", "xl/vbaProjectSignature.bin", SignatureT, "rooted">>}
                         \cup Rel("xl/vbaProject.bin", "v", "http://schemas.microsoft.com/office/2006/relationships/vbaProjectSignature", "xl/vbaProjectSignature.bin") ELSE {})
    \cup {<<"part", TypesPart, "xml">>, <<"default", "vml", VmlT>>, <<"default", "png", "image/png">>, <<"default", "bin", VbaT>>, <<"default", "rels", RelsT>>}

Sound == Defects(Assemble) = {}
Types == [n \in {f[2] : f \in Sel(Assemble, "part")} |->
            LET o == {f \in Sel(Assemble, "override") : f[2] = n}
                e == (CHOOSE f \in Sel(Assemble, "part") : f[2] = n)[3]
                d == {f \in Sel(Assemble, "default") : f[2] = e}
            IN IF o # {} THEN (CHOOSE f \in o : TRUE)[3] ELSE IF d # {} THEN (CHOOSE f \in d : TRUE)[3] ELSE "none"]
Counted == LET types == Types IN \A x \in Counts(st) : Cardinality({n \in DOMAIN types : types[n] = x[1]}) = x[2]
\* Leaving any part out, or any relationship, is a defect of the package: nothing is there in vain.
Needed == LET all == Assemble
          IN /\ \A f \in Sel(all, "part") : Defects(all \ {f}) # {}
             /\ \A f \in Sel(all, "rel") : Defects(all \ {f}) # {}
             /\ \A f \in Sel(all, "override") : Defects(all \ {f}) # {}
=============================================================================
