------------------------------- MODULE MC_Refs -------------------------------
(* Properties of the reference arithmetic itself, for every column and for   *)
(* every short worksheet name over a telling alphabet.                       *)
EXTENDS Refs, Json
VARIABLES name, col
vars == <<name, col>>
CONSTANT MaxLen
Chars == {"A", "C", "R", "x", "1", "0", "9", ".", "'", " ", "_", "%E9;", "%1F600;"}
ToChars(s) == [k \in 1 .. Len(s) |-> SubSeq(s, k, k)]
Init == name = << >> /\ col \in 0 .. COLMAX - 1
Next == /\ col = 0
        /\ Len(name) < MaxLen
        /\ \E ch \in Chars : name' = Append(name, ch)
        /\ UNCHANGED col
        /\ PrintT("@@HIST " \o ToJson(<<name'>>))
\* Column letters and numbers are inverse.
ColumnsInvert == ColNum(ToChars(ColName(col))) = col
\* A quoted name reads back as the name.
QuotesInvert == name = << >> \/ name[1] = "'" \/
                LET q == IF NeedsQuotes(name) THEN <<"'">> \o Doubled(name) \o <<"'">> ELSE name
                IN Unquoted(q) = name /\ Join(q) = Quoted(name)
\* A name that is not quoted cannot be read as a reference to a cell.
PlainIsNoCell == name = << >> \/ NeedsQuotes(name) \/ name[1] = "'" \/
                 LET p == ParseCell(Up(name)) IN ~p.ok \/ p.r < 0 \/ p.r >= ROWMAX \/ p.c >= COLMAX
=============================================================================
