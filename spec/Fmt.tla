-------------------------------- MODULE Fmt --------------------------------
(* Cell formats.  A format is a partial function from property names to      *)
(* (string) values, holding only the properties the user set.                *)
EXTENDS VBase

FKeys == {"b","i","st","u","fc","fn","fs","fam","chs","scr","nf","nfi","bg","fg","pat","ha","va",
          "wrap","shr","rot","ind","rd","bl","br","bt","bb","bd","blc","brc","btc","bbc","bdc","bdt",
          "lk","hid","qp","cb","hl"}
\* Shades of the theme colors, as stored: the first columns of the palette differ from the others.
Tint(c) == CASE c = "0" -> <<"-0.0499893185216834", "-0.1499984740745262", "-0.249977111117893", "-0.3499862666707358", "-0.499984740745262">>
             [] c = "1" -> <<"0.499984740745262", "0.3499862666707358", "0.249977111117893", "0.1499984740745262", "0.0499893185216834">>
             [] c = "2" -> <<"-0.0999786370433668", "-0.249977111117893", "-0.499984740745262", "-0.749992370372631", "-0.8999908444471572">>
             [] OTHER -> <<"0.7999816888943144", "0.5999938962981048", "0.3999755851924192", "-0.249977111117893", "-0.499984740745262">>
ColorOf(v) ==
    IF Len(v) = 8 /\ SubSeq(v, 1, 5) = "theme"
    THEN LET c == SubSeq(v, 6, 6)
             k == SubSeq(v, 8, 8) IN
         IF k = "0" THEN "theme" \o c
         ELSE "theme" \o c \o ":" \o Tint(c)[CASE k = "1" -> 1 [] k = "2" -> 2 [] k = "3" -> 3 [] k = "4" -> 4 [] k = "5" -> 5]
    ELSE v
ColorKeys == {"fc", "bg", "fg", "blc", "brc", "btc", "bbc", "bdc"}
\* Normalise a record read from JSON into a partial function.
FmtOf(x) == [k \in DOMAIN x |-> IF k \in ColorKeys THEN ColorOf(x[k]) ELSE x[k]]
NoFmt == [k \in {} |-> ""]
HyperFmt == [k \in {"hl"} |-> "1"]
\* "a" combined with "b": the properties of "a" take precedence.
FMerge(a, b) == Over(a, b)

FHas(f, k) == k \in DOMAIN f
FGet(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

\* ---- what a reader sees for a format: set of <<key, value>> ----
FontFacts(f) ==
    LET hl == FHas(f, "hl")
        plain == {"b", "i", "st", "scr", "fs", "fn", "chs", "fam"} IN
    {<<k, f[k]>> : k \in plain \cap DOMAIN f}
    \cup (IF hl THEN {<<"fc", "theme10">>, <<"u", "single">>, <<"hl", "1">>}
          ELSE {<<k, f[k]>> : k \in {"u", "fc"} \cap DOMAIN f})

FillFacts(f) ==
    LET p0 == FGet(f, "pat", "none")
        fg0 == FGet(f, "fg", "")
        bg0 == FGet(f, "bg", "")
        soft == p0 \in {"none", "solid"}
        \* A background colour alone is a solid fill in that colour.
        step1 == soft /\ bg0 # "" /\ fg0 = ""
        step2 == soft /\ bg0 = "" /\ fg0 # ""
        p == IF step1 \/ step2 THEN "solid" ELSE p0
        fg1 == IF step1 THEN bg0 ELSE fg0
        bg1 == IF step1 THEN "" ELSE bg0
        \* A solid fill with both colours shows the background colour.
        swap == p = "solid" /\ fg1 # "" /\ bg1 # ""
        fg == IF swap THEN bg1 ELSE fg1
        bg == IF swap THEN fg1 ELSE bg1
    IN (IF p # "none" THEN {<<"pat", p>>} ELSE {})
       \cup (IF fg # "" THEN {<<"fg", fg>>} ELSE {})
       \cup (IF bg # "" THEN {<<"bg", bg>>} ELSE {})

BorderFacts(f) ==
    UNION { IF FGet(f, e[1], "none") = "none" THEN {}
            ELSE {<<e[1], f[e[1]]>>} \cup (IF FHas(f, e[2]) THEN {<<e[2], f[e[2]]>>} ELSE {})
            : e \in {<<"bl","blc">>, <<"br","brc">>, <<"bt","btc">>, <<"bb","bbc">>, <<"bd","bdc">>} }
    \cup (IF FHas(f, "bdt") THEN {<<"bdt", f["bdt"]>>} ELSE {})

\* Rotation: 270 is vertical text, negative angles are stored as 90 + n.
RotOut(a) == IF a = "270" THEN "255"
             ELSE IF \E n \in 1 .. 90 : a = "-" \o ToString(n)
                  THEN ToString(90 + CHOOSE n \in 1 .. 90 : a = "-" \o ToString(n)) ELSE a

AlignFacts(f) ==
    LET h0 == FGet(f, "ha", "general")
        v == FGet(f, "va", "general")
        ind == FGet(f, "ind", "0")
        h == IF ind # "0" /\ h0 \notin {"left", "right", "distributed"}
                /\ v \notin {"top", "bottom"} THEN "left" ELSE h0
        shr == FHas(f, "shr") /\ ~FHas(f, "wrap") /\ h \notin {"fill", "justify", "distributed"}
    IN (IF h # "general" THEN {<<"ha", h>>} ELSE {})
       \cup (IF v \in {"top"} THEN {<<"va", "top">>}
             ELSE IF v = "vcenter" THEN {<<"va", "center">>}
             ELSE IF v = "vjustify" THEN {<<"va", "justify">>}
             ELSE IF v = "vdistributed" THEN {<<"va", "distributed">>} ELSE {})
       \cup (IF FGet(f, "rot", "0") # "0" THEN {<<"rot", RotOut(f["rot"])>>} ELSE {})
       \cup (IF ind # "0" THEN {<<"ind", ind>>} ELSE {})
       \cup (IF FHas(f, "wrap") THEN {<<"wrap", "1">>} ELSE {})
       \cup (IF shr THEN {<<"shr", "1">>} ELSE {})
       \cup (IF FHas(f, "rd") THEN {<<"rd", f["rd"]>>} ELSE {})

\* Built-in number formats have fixed indices.
Builtin == [x \in {"0","0.00","#,##0","#,##0.00","0%","0.00%","0.00E+00","# ?/?","# ??/??","General",
                   "m/d/yy","d-mmm-yy","d-mmm","mmm-yy","h:mm AM/PM","h:mm:ss AM/PM","h:mm","h:mm:ss",
                   "m/d/yy h:mm","mm:ss","[h]:mm:ss","mm:ss.0","##0.0E+0","@"} |->
            CASE x = "General" -> "0" [] x = "0" -> "1" [] x = "0.00" -> "2" [] x = "#,##0" -> "3"
              [] x = "#,##0.00" -> "4" [] x = "0%" -> "9" [] x = "0.00%" -> "10"
              [] x = "0.00E+00" -> "11" [] x = "# ?/?" -> "12" [] x = "# ??/??" -> "13"
              [] x = "m/d/yy" -> "14" [] x = "d-mmm-yy" -> "15" [] x = "d-mmm" -> "16"
              [] x = "mmm-yy" -> "17" [] x = "h:mm AM/PM" -> "18" [] x = "h:mm:ss AM/PM" -> "19"
              [] x = "h:mm" -> "20" [] x = "h:mm:ss" -> "21" [] x = "m/d/yy h:mm" -> "22"
              [] x = "mm:ss" -> "45" [] x = "[h]:mm:ss" -> "46" [] x = "mm:ss.0" -> "47"
              [] x = "##0.0E+0" -> "48" [] OTHER -> "49"]

NumFmtFacts(f) ==
    IF FHas(f, "nfi") THEN (IF f["nfi"] = "0" THEN {} ELSE {<<"nf", "#" \o f["nfi"]>>})
    ELSE IF ~FHas(f, "nf") THEN {}
    ELSE IF f["nf"] \in DOMAIN Builtin
         THEN (IF Builtin[f["nf"]] = "0" THEN {} ELSE {<<"nf", "#" \o Builtin[f["nf"]]>>})
         ELSE {<<"nf", f["nf"]>>}

ProtFacts(f) == (IF FHas(f, "lk") THEN {<<"lk", "0">>} ELSE {})
                \cup (IF FHas(f, "hid") THEN {<<"hid", "1">>} ELSE {})

MiscFacts(f) == {<<k, f[k]>> : k \in {"qp", "cb"} \cap DOMAIN f}

\* The part of a format that conditional formats and tables store.
DxfFacts(f) ==
    {<<k, f[k]>> : k \in {"b", "i", "st", "u", "fc"} \cap DOMAIN f}
    \cup NumFmtFacts(f)
    \cup (IF FHas(f, "pat") /\ (f["pat"] # "solid" \/ (~FHas(f, "bg") /\ ~FHas(f, "fg"))) THEN {<<"pat", f["pat"]>>} ELSE {})
    \cup {<<k, f[k]>> : k \in {"bg", "fg"} \cap DOMAIN f}
    \cup BorderFacts([k \in DOMAIN f \ {"bd", "bdc", "bdt"} |-> f[k]])

FmtFacts(f) == FontFacts(f) \cup FillFacts(f) \cup BorderFacts(f) \cup AlignFacts(f)
               \cup NumFmtFacts(f) \cup ProtFacts(f) \cup MiscFacts(f)
=============================================================================
