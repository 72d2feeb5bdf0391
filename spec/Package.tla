------------------------------- MODULE Package -------------------------------
(* Which sets of parts make up a file.                                        *)
(*                                                                            *)
(* The observation of a saved file is a set of plain facts: its parts, their *)
(* content types, relationships and the elements which use them, the children*)
(* and attributes of the elements, numbers which are defined and numbers     *)
(* which are referred to.  Defects(obs) says what is wrong with them: a file  *)
(* is good if there is nothing.  The state follows how many objects of which *)
(* kind have been put on which sheet, which says how many parts of which kind*)
(* a file must have (view "shape").                                           *)
EXTENDS Schema

Doc == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"
Pkg == "http://schemas.openxmlformats.org/package/2006/relationships/"
Xml == "application/vnd.openxmlformats-officedocument."
Sp == Xml \o "spreadsheetml."
Ms == "application/vnd.ms-excel."

Plain == Sp \o "sheet.main+xml"
Macro == Ms \o "sheet.macroEnabled.main+xml"
Books == {Plain, Macro}
WorksheetT == Sp \o "worksheet+xml"
ChartsheetT == Sp \o "chartsheet+xml"
DrawingT == Xml \o "drawing+xml"
ChartT == Xml \o "drawingml.chart+xml"
TableT == Sp \o "table+xml"
CommentsT == Sp \o "comments+xml"
VmlT == Xml \o "vmlDrawing"
VbaT == "application/vnd.ms-office.vbaProject"
SignatureT == "application/vnd.ms-office.vbaProjectSignature"
SstT == Sp \o "sharedStrings+xml"
MetadataT == Sp \o "sheetMetadata+xml"
CustomT == Xml \o "custom-properties+xml"
BagT == Ms \o "featurepropertybag+xml"
RichRelT == Ms \o "richvaluerel+xml"
RelsT == "application/vnd.openxmlformats-package.relationships+xml"
Pictures == {"image/png", "image/jpeg", "image/gif", "image/bmp"}
Sheets == {WorksheetT, ChartsheetT}

(* Relationships: type, types of the part it may come from ("" for the       *)
(* package itself), types of the part it may lead to, elements which use it  *)
(* ({} for those which need no use, of which a part has one at most).         *)
Kinds == <<
  <<Doc \o "officeDocument", {""}, Books, {}>>,
  <<Pkg \o "metadata/core-properties", {""}, {"application/vnd.openxmlformats-package.core-properties+xml"}, {}>>,
  <<Doc \o "extended-properties", {""}, {Xml \o "extended-properties+xml"}, {}>>,
  <<Doc \o "custom-properties", {""}, {CustomT}, {}>>,
  <<Doc \o "worksheet", Books, {WorksheetT}, {"x:sheet"}>>,
  <<Doc \o "chartsheet", Books, {ChartsheetT}, {"x:sheet"}>>,
  <<Doc \o "theme", Books, {Xml \o "theme+xml"}, {}>>,
  <<Doc \o "styles", Books, {Sp \o "styles+xml"}, {}>>,
  <<Doc \o "sharedStrings", Books, {SstT}, {}>>,
  <<Doc \o "sheetMetadata", Books, {MetadataT}, {}>>,
  <<"http://schemas.microsoft.com/office/2006/relationships/vbaProject", Books, {VbaT}, {}>>,
  <<"http://schemas.microsoft.com/office/2006/relationships/vbaProjectSignature", {VbaT}, {SignatureT}, {}>>,
  <<"http://schemas.microsoft.com/office/2022/10/relationships/richValueRel", Books, {RichRelT}, {}>>,
  <<"http://schemas.microsoft.com/office/2017/06/relationships/rdRichValue", Books, {Ms \o "rdrichvalue+xml"}, {}>>,
  <<"http://schemas.microsoft.com/office/2017/06/relationships/rdRichValueStructure", Books, {Ms \o "rdrichvaluestructure+xml"}, {}>>,
  <<"http://schemas.microsoft.com/office/2017/06/relationships/rdRichValueTypes", Books, {Ms \o "rdrichvaluetypes+xml"}, {}>>,
  <<"http://schemas.microsoft.com/office/2022/11/relationships/FeaturePropertyBag", Books, {BagT}, {}>>,
  <<Doc \o "drawing", Sheets, {DrawingT}, {"x:drawing"}>>,
  <<Doc \o "vmlDrawing", Sheets, {VmlT}, {"x:legacyDrawing", "x:legacyDrawingHF"}>>,
  <<Doc \o "comments", {WorksheetT}, {CommentsT}, {}>>,
  <<Doc \o "table", {WorksheetT}, {TableT}, {"x:tablePart"}>>,
  <<Doc \o "hyperlink", {WorksheetT, DrawingT}, {}, {"x:hyperlink", "a:hlinkClick"}>>,
  <<Doc \o "image", Sheets \cup {DrawingT, VmlT, RichRelT}, Pictures, {"x:picture", "a:blip", "v:imagedata", "rvr:rel"}>>,
  <<Doc \o "chart", {DrawingT}, {ChartT}, {"c:chart"}>> >>
KindOf == [t \in {Kinds[k][1] : k \in DOMAIN Kinds} |-> LET k == CHOOSE j \in DOMAIN Kinds : Kinds[j][1] = t
                                                      IN [from |-> Kinds[k][2], to |-> Kinds[k][3], by |-> Kinds[k][4]]]
Hyperlink == Doc \o "hyperlink"

\* The element a part of each type starts with.
RootOf == [t \in Books |-> "x:workbook"] @@ (WorksheetT :> "x:worksheet") @@ (ChartsheetT :> "x:chartsheet") @@ (DrawingT :> "xdr:wsDr")
          @@ (ChartT :> "c:chartSpace") @@ (TableT :> "x:table") @@ (CommentsT :> "x:comments") @@ (SstT :> "x:sst") @@ (MetadataT :> "x:metadata")
          @@ ((Sp \o "styles+xml") :> "x:styleSheet") @@ ((Xml \o "theme+xml") :> "a:theme") @@ (CustomT :> "op:Properties")
          @@ ((Xml \o "extended-properties+xml") :> "ep:Properties") @@ ("application/vnd.openxmlformats-package.core-properties+xml" :> "cp:coreProperties")
          @@ (RelsT :> "pr:Relationships") @@ (BagT :> "fpb:FeaturePropertyBags") @@ (RichRelT :> "rvr:richValueRels") @@ ((Ms \o "rdrichvalue+xml") :> "xlrd:rvData")
          @@ ((Ms \o "rdrichvaluestructure+xml") :> "xlrd:rvStructures") @@ ((Ms \o "rdrichvaluetypes+xml") :> "xlrd2:rvTypesInfo")
\* What the bytes of a part look like.
Looks == ("image/png" :> "png") @@ ("image/jpeg" :> "jpeg") @@ ("image/gif" :> "gif") @@ ("image/bmp" :> "bmp") @@ (VmlT :> "vml") @@ (VbaT :> "other") @@ (SignatureT :> "other")
LooksLike(t) == Get(Looks, t, "xml")
\* Numbers of number formats which need no definition.
BuiltIn == {ToString(k) : k \in 0 .. 163}

TypesPart == "[Content_Types].xml"
(*------------------------------- the defects -------------------------------*)
Sel(obs, kind) == {f \in obs : f[1] = kind}

RECURSIVE Reach(_, _)
Reach(edges, seen) == LET more == {e[2] : e \in {x \in edges : x[1] \in seen}} \ seen
                      IN IF more = {} THEN seen ELSE Reach(edges, seen \cup more)

Defects(obs) ==
    LET parts == {f[2] : f \in Sel(obs, "part")}
        over == Sel(obs, "override")
        dflt == Sel(obs, "default")
        overName == {f[2] : f \in over}
        overType == [n \in overName |-> (CHOOSE f \in over : f[2] = n)[3]]
        dfltType == [e \in {f[2] : f \in dflt} |-> (CHOOSE f \in dflt : f[2] = e)[3]]
        ext == [n \in parts |-> (CHOOSE f \in Sel(obs, "part") : f[2] = n)[3]]
        type == [n \in parts |-> IF n \in overName THEN overType[n] ELSE Get(dfltType, ext[n], "none")]
        Type(n) == Get(type, n, "none")
        rels == Sel(obs, "rel")              \* <<"rel", source, id, type, mode, target>>
        uses == Sel(obs, "use")              \* <<"use", source, id, element>>
        root(t) == {r \in rels : r[4] = t /\ r[2] = ""}
        isXml(n) == ext[n] \in {"xml", "rels", "vml"}
        edges == {<<r[2], r[6]>> : r \in {x \in rels : x[5] = "Internal"}}
        content == {n \in parts : n # TypesPart /\ ext[n] # "rels"}
        explicit(t) == t \in DOMAIN KindOf /\ KindOf[t].by # {}
        relAt == [k \in {<<r[2], r[3]>> : r \in rels} |-> {r \in rels : r[2] = k[1] /\ r[3] = k[2]}]
        usedAt == {<<u[2], u[3]>> : u \in uses}
        defs == {<<f[2], f[3], f[4]>> : f \in Sel(obs, "def")}
        macros == {r \in rels : r[4] = "http://schemas.microsoft.com/office/2006/relationships/vbaProject"}
    IN  \* Parts and their types.
        {<<"no content type", n>> : n \in {n \in parts \ {TypesPart} : type[n] \in {"none", "application/xml"}}}
        \cup {<<"type of no part", n>> : n \in overName \ parts}
        \cup {<<"not a part name", f[2]>> : f \in {f \in over : f[4] # "rooted"}}
        \cup {<<"no types">> : x \in {TypesPart} \ parts}
        \cup {<<"not of its type", n, type[n]>> : n \in {n \in content : \E f \in Sel(obs, "magic") : f[2] = n /\ f[3] # LooksLike(type[n])}}
        \cup {<<"wrong root", f[2], f[3]>> : f \in {f \in Sel(obs, "root") : f[2] \in content /\ type[f[2]] \in DOMAIN RootOf /\ RootOf[type[f[2]]] # f[3]}}
        \cup {<<"relationships of no part", f[2]>> : f \in {f \in Sel(obs, "rels") : f[2] # "" /\ f[2] \notin parts}}
        \cup {<<"type of relationships", n>> : n \in {n \in parts : ext[n] = "rels" /\ type[n] # RelsT}}
        \* Relationships.
        \cup {<<"unknown relationship", r[2], r[4]>> : r \in {r \in rels : r[4] \notin DOMAIN KindOf}}
        \cup UNION {LET k == KindOf[r[4]]
                    IN (IF r[4] = Hyperlink /\ r[5] = "Internal" THEN {<<"link to a part", r[2], r[3]>>} ELSE {})
                       \cup (IF r[4] # Hyperlink /\ r[5] # "Internal" THEN {<<"not a part", r[2], r[3], r[6]>>} ELSE {})
                       \cup (IF r[5] = "Internal" /\ r[4] # Hyperlink /\ r[6] \notin parts THEN {<<"no such part", r[2], r[3], r[6]>>} ELSE {})
                       \cup (IF r[5] = "Internal" /\ r[6] \in parts /\ Type(r[6]) \notin k.to THEN {<<"leads to a part of another type", r[2], r[3], r[6], Type(r[6])>>} ELSE {})
                       \cup (IF (IF r[2] = "" THEN "" ELSE Type(r[2])) \notin k.from THEN {<<"comes from a part of another type", r[2], r[3]>>} ELSE {})
                       \cup (IF k.by # {} /\ <<r[2], r[3]>> \notin usedAt THEN {<<"unused", r[2], r[3], r[4]>>} ELSE {})
                       \cup (IF k.by = {} /\ \E q \in rels : q # r /\ q[2] = r[2] /\ q[4] = r[4] THEN {<<"twice", r[2], r[4]>>} ELSE {})
                    : r \in {r \in rels : r[4] \in DOMAIN KindOf}}
        \cup {<<"undefined", u[2], u[3], u[4]>> : u \in {u \in uses : <<u[2], u[3]>> \notin DOMAIN relAt}}
        \cup {<<"wrong use", u[2], u[3], u[4]>> : u \in {u \in uses : <<u[2], u[3]>> \in DOMAIN relAt
                                                                    /\ \E r \in relAt[<<u[2], u[3]>>] : r[4] \notin DOMAIN KindOf \/ u[4] \notin KindOf[r[4]].by}}
        \cup {<<"not reached", n>> : n \in content \ Reach(edges, {""})}
        \cup (IF Cardinality(root(Doc \o "officeDocument")) = 1 THEN {} ELSE {<<"one workbook">>})
        \cup {<<"macros", n>> : n \in {n \in content : type[n] \in Books /\ ((type[n] = Macro) # (macros # {}))}}
        \cup {<<"comments without shapes", f[2]>> : f \in {f \in Sel(obs, "needs") : f[3] # f[4] /\ f[4] = ""}}
        \* Elements.
        \cup {<<"BAD element", f[2], Fault(f[2], SubSeq(f, 3, Len(f)))>> : f \in {f \in Sel(obs, "kids") : Fault(f[2], SubSeq(f, 3, Len(f))) # ""}}
        \cup {<<"BAD attributes", f[2], AttrFault(f[2], {f[j] : j \in 3 .. Len(f)})>> : f \in {f \in Sel(obs, "attrs") : AttrFault(f[2], {f[j] : j \in 3 .. Len(f)}) # ""}}
        \cup {<<"BAD count", f[2], f[3], f[4]>> : f \in {f \in Sel(obs, "count") : f[3] # f[4]}}
        \cup {<<"BAD text between elements", f[2]>> : f \in Sel(obs, "mixed")}
        \cup {<<"BAD order", f[2], f[3]>> : f \in Sel(obs, "disorder")}
        \* Names and numbers.
        \cup {<<"used again", f[2], f[3], f[4]>> : f \in {f \in Sel(obs, "id") : f[5] # "1"}}
        \cup {<<"dangling", f[2], f[3], f[4], f[5]>> : f \in {f \in Sel(obs, "ref") : <<f[2], f[3], f[4]>> \notin defs /\ ~(f[2] = "numfmt" /\ f[4] \in BuiltIn)}}

(*---------------------------- how many parts of each kind -----------------------------*)
\* What has been put on each sheet; the edits are those of gpack.combination.
Sheet0(mode) == [mode |-> mode, drawn |-> 0, charts |-> 0, notes |-> 0, buttons |-> 0, headers |-> 0, tables |-> 0, embeds |-> 0]
PackInit(cs) == [n |-> 0, res |-> cs.res, tabs |-> << >>, dyn |-> FALSE, bag |-> FALSE, custom |-> FALSE, vba |-> FALSE, sig |-> FALSE]

Drawn == {"image", "fit", "shape"}
Add(st, o, field) == [st EXCEPT !.tabs[o.s + 1][field] = @ + 1]
PackStep(st0, o) ==
    LET st == [st0 EXCEPT !.n = @ + 1]
        op == o.op
        res == st.res[st.n]
    IN [st |-> IF res # "ok" THEN st
               ELSE IF op = "add_sheet" THEN [st EXCEPT !.tabs = Append(@, Sheet0(o.mode))]
               ELSE IF op \in Drawn THEN Add(st, o, "drawn")
               ELSE IF op = "ochart" THEN IF st.tabs[o.s + 1].mode = "chart" /\ st.tabs[o.s + 1].charts = 1 THEN st ELSE Add(Add(st, o, "drawn"), o, "charts")
               ELSE IF op = "note" THEN Add(st, o, "notes")
               ELSE IF op = "button" THEN Add(st, o, "buttons")
               ELSE IF op = "hfimg" THEN Add(st, o, "headers")
               ELSE IF op = "table" THEN Add(st, o, "tables")
               ELSE IF op = "embed" THEN Add(st, o, "embeds")
               ELSE IF op = "dynformula" THEN [st EXCEPT !.dyn = TRUE]
               ELSE IF op = "checkbox" THEN [st EXCEPT !.bag = TRUE]
               ELSE IF op = "props" THEN [st EXCEPT !.custom = Len(o.custom) > 0]
               ELSE IF op = "vba" THEN [st EXCEPT !.vba = TRUE, !.sig = @ \/ Has(o, "sig")]
               ELSE st,
        res |-> "anything", any |-> {res} \ {"panic", "abort", "hang"}]

How(st, P(_)) == Cardinality({k \in DOMAIN st.tabs : P(st.tabs[k])})
All(st, field) == SumSeq([k \in DOMAIN st.tabs |-> st.tabs[k][field]])
One01(b) == IF b THEN 1 ELSE 0
Counts(st) ==
    LET embeds == All(st, "embeds") > 0
    IN {<<WorksheetT, How(st, LAMBDA t : t.mode # "chart")>>, <<ChartsheetT, How(st, LAMBDA t : t.mode = "chart")>>,
        <<DrawingT, How(st, LAMBDA t : t.drawn > 0)>>, <<ChartT, All(st, "charts")>>, <<TableT, All(st, "tables")>>,
        <<CommentsT, How(st, LAMBDA t : t.notes > 0)>>,
        <<VmlT, How(st, LAMBDA t : t.notes + t.buttons > 0) + How(st, LAMBDA t : t.headers > 0)>>,
        <<MetadataT, One01(embeds \/ st.dyn)>>, <<RichRelT, One01(embeds)>>, <<BagT, One01(st.bag)>>, <<CustomT, One01(st.custom)>>,
        <<VbaT, One01(st.vba)>>, <<SignatureT, One01(st.sig)>>}
Shape(st) == {<<"shape", x[1], ToString(x[2])>> : x \in Counts(st)}

(*------------------------------ the trace interface -----------------------------*)
Obs(cs, k) == {cs.obs[S(k)][j] : j \in DOMAIN cs.obs[S(k)]}
PackExpect(cs, st, o) ==
    LET all == Obs(cs, st.n)
        plain == {f \in all : f[1] # "shape"}
        shaped == \E j \in DOMAIN cs.view : cs.view[j] = "shape"
    IN plain \cup Defects(plain) \cup (IF shaped THEN Shape(st) ELSE {})

\* Any outcome of any edit is accepted: what is judged is the file.
AnyStep(st, o) == [st |-> [st EXCEPT !.n = @ + 1], res |-> "anything", any |-> {st.res[st.n + 1]} \ {"panic", "abort", "hang"}]
AnyInit(cs) == [n |-> 0, res |-> cs.res]
=============================================================================
