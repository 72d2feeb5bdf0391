------------------------------- MODULE Texts -------------------------------
(* Texts: wherever a text can be set, the same text is read back.            *)
(*                                                                            *)
(* Most texts of a spreadsheet are kept in an escaped form, in which "_x"    *)
(* four hexadecimal digits "_" stands for a character; a text which looks    *)
(* like that has to be escaped itself.  Encode and Decode say how; what the  *)
(* real files hold is decoded by the independent reader.                     *)
EXTENDS VBase

----------------------------------------------------------------------------
(* Texts are sequences of characters; control characters are named.          *)
Hex == {"0", "1", "4", "5", "F"}
Code(c) == CASE c = "NUL" -> <<"0", "0", "0", "0">> [] c = "EOT" -> <<"0", "0", "0", "4">>
             [] c = "_" -> <<"0", "0", "5", "F">> [] c = "A" -> <<"0", "0", "4", "1">>
Control == {"NUL", "EOT"}
Escape(c) == <<"_", "x">> \o Code(c) \o <<"_">>
\* An escape, or what looks like one, starts at position k.
LooksEscaped(t, k) == /\ k + 6 <= Len(t) /\ t[k] = "_" /\ t[k + 1] = "x" /\ t[k + 6] = "_"
                      /\ \A j \in k + 2 .. k + 5 : t[j] \in Hex
RECURSIVE EncodeFrom(_, _)
EncodeFrom(t, k) == IF k > Len(t) THEN << >>
    ELSE (IF t[k] \in Control \/ LooksEscaped(t, k) THEN Escape(t[k]) ELSE <<t[k]>>) \o EncodeFrom(t, k + 1)
Encode(t) == EncodeFrom(t, 1)
Coded == {"NUL", "EOT", "_", "A"}
RECURSIVE DecodeFrom(_, _)
DecodeFrom(t, k) == IF k > Len(t) THEN << >>
    ELSE IF LooksEscaped(t, k)
    THEN LET cs == {c \in Coded : Code(c) = SubSeq(t, k + 2, k + 5)} IN
         (IF cs = {} THEN <<"?">> ELSE <<CHOOSE c \in cs : TRUE>>) \o DecodeFrom(t, k + 7)
    ELSE <<t[k]>> \o DecodeFrom(t, k + 1)
Decode(t) == DecodeFrom(t, 1)

----------------------------------------------------------------------------
(* Places.                                                                    *)
\* One text for a worksheet or workbook: the last one set holds.
Single == {"name", "header", "footer", "listfilter", "customfilter"}
Properties == {"p_title", "p_subject", "p_author", "p_manager", "p_company", "p_category", "p_keywords", "p_comment",
               "p_status", "p_base"}
OfBook == Properties \cup {"c_value", "c_name", "defname"}
InCells == {"str", "strfmt", "rich1", "rich2", "formula", "result", "array", "urltext", "tip", "loc", "merge", "nan"}
Others == {"cached", "note", "prefix", "notealt", "dvtitle", "dvmsg", "dvetitle", "dvemsg", "dvlist", "dvcustom", "cftext",
           "cfformula", "cfcell", "colname", "label", "colformula", "totalformula", "alt", "imgtip", "shape", "shapealt",
           "caption", "buttonalt", "macro", "chname", "chalt", "chtitle", "sername", "xname", "dlabel", "trend", "axisfmt",
           "titlefont", "numfmt", "font", "dxfnumfmt", "protrange"}
Slots == Single \cup OfBook \cup InCells \cup Others

\* The most characters a text may have, and what becomes of a longer one.
Limit(slot) ==
    CASE slot \in {"dvtitle", "dvetitle"} -> <<32, "DataValidationError">>
      [] slot \in {"dvmsg", "dvemsg"} -> <<255, "DataValidationError">>
      [] slot = "dvlist" -> <<253, "DataValidationError">>              \* with the other item and a comma
      [] slot \in {"tip", "imgtip"} -> <<255, "ParameterError">>
      [] slot \in {"header", "footer"} -> <<255, "">>                   \* ignored
      [] slot \in {"str", "strfmt", "merge", "rich1", "rich2", "urltext", "cached"} -> <<32767, "MaxStringLengthExceeded">>
      [] slot = "note" -> <<32713, "MaxStringLengthExceeded">>
      [] slot \in {"alt", "notealt", "shapealt", "buttonalt", "chalt"} -> <<255, "">>
      [] slot = "prefix" -> <<52, "">>
      [] OTHER -> <<0, "">>
\* What is there when a text was ignored.
Default(slot) == IF slot = "prefix" THEN "Author" ELSE ""
Places(o) == IF o.slot = "cached" THEN {"cached", "cachedname", "cachedvalue"} ELSE {o.slot}
Key(slot, o) == <<slot, o.s, IF slot \in Single \cup Properties THEN 0 ELSE o.r>>

\* Setting up the autofilter again clears its conditions.
Other(slot) == CASE slot = "listfilter" -> "customfilter" [] slot = "customfilter" -> "listfilter" [] OTHER -> "none"

\* State: the texts set, by place.
TextsInit(cs) == [n |-> 0, texts |-> Empty]
SetText(st, o) ==
    LET l == Limit(o.slot)
        extra == IF o.slot \in {"rich1", "rich2"} THEN 1 ELSE 0
        long == l[1] > 0 /\ o.n + extra > l[1]
        text == IF long THEN Default(o.slot) ELSE IF o.slot = "shape" THEN o.lines ELSE o.tx
        gone == Key(Other(o.slot), o)
    IN IF long /\ (l[2] # "" \/ o.slot \in Single)
       THEN [st |-> st, res |-> IF l[2] = "" THEN "ok" ELSE "err:" \o l[2]]
       ELSE Ok([st EXCEPT !.texts = Del([k \in {Key(p, o) : p \in Places(o)} |-> text] @@ @, {gone})])

TextsStep(st, o) ==
    CASE o.op = "add_sheet" -> Ok([st EXCEPT !.n = @ + 1])
      [] o.op = "text" -> IF o.slot \in OfBook THEN SetText(st, o)
                          ELSE IF o.s >= st.n THEN [st |-> st, res |-> "err:UnknownWorksheetNameOrIndex"]
                          ELSE SetText(st, o)
      [] o.op = "save" -> Ok(st)

TextsExpect(cs, st, o) == {<<"text", k[1], S(k[2]), S(k[3]), st.texts[k]>> : k \in DOMAIN st.texts}
=============================================================================
