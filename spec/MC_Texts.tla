------------------------------ MODULE MC_Texts ------------------------------
(* Every text made up of a few pieces of escapes, markup and control         *)
(* characters: what is encoded decodes to itself.  Each text is then set in  *)
(* every place of a workbook.                                                *)
EXTENDS Texts, Json
CONSTANTS Pieces
VARIABLES text, n
vars == <<text, n>>
Esc5F == <<"_", "x", "0", "0", "5", "F", "_">>
Esc41 == <<"_", "x", "0", "0", "4", "1", "_">>
Piece == {<<"_">>, <<"x">>, Esc5F, Esc41, <<"x", "0", "0", "4", "1", "_">>, <<"_", "x", "0", "0">>, <<"0", "4", "1">>, <<"EOT">>, <<"A">>, <<"&">>, <<"<">>, <<" ">>}
Init == text = << >> /\ n = 0
Next == /\ n < Pieces
        /\ \E p \in Piece : text' = text \o p
        /\ n' = n + 1
        /\ PrintT("@@HIST " \o ToJson(<<[op |-> "chars", chars |-> text']>>))
Reads == Decode(Encode(text)) = text
\* A text is only escaped where it has to be.
Plain == (\A k \in DOMAIN text : text[k] \notin Control /\ ~LooksEscaped(text, k)) <=> Encode(text) = text
=============================================================================
