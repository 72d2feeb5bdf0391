------------------------------ MODULE Filters ------------------------------
(* Autofilter conditions: which cells match.  The key of a cell is the       *)
(* sequence of the code points of its text, trimmed and in lower case, or    *)
(* one number for a numeric cell.                                            *)
EXTENDS VBase

\* A condition is built by a sequence of steps; [k |-> "list" | "blanks" | "or" | criteria, x, key, num, n2].
CondInit == [list |-> TRUE, or |-> TRUE, blanks |-> FALSE, items |-> << >>, cus |-> << >>]
CondStep(c, e) ==
    CASE e.k = "list" -> [c EXCEPT !.items = Append(@, e), !.list = TRUE]
      [] e.k = "blanks" -> [c EXCEPT !.blanks = TRUE, !.list = TRUE]
      [] e.k = "or" -> [c EXCEPT !.or = TRUE, !.list = FALSE]
      [] OTHER -> [c EXCEPT !.cus = IF Len(@) < 2 THEN Append(@, e) ELSE @,
                            !.or = IF Len(c.cus) = 1 THEN FALSE ELSE @, !.list = FALSE]
CondOf(steps) == FoldL(CondStep, CondInit, steps)
CondSet(c) == c.items # << >> \/ c.cus # << >> \/ c.blanks

RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = << >> THEN FALSE ELSE IF a = << >> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
Begins(a, b) == Len(a) >= Len(b) /\ SubSeq(a, 1, Len(b)) = b
Ends(a, b) == Len(a) >= Len(b) /\ SubSeq(a, Len(a) - Len(b) + 1, Len(a)) = b
Holds(a, b) == \E k \in 0 .. Len(a) - Len(b) : SubSeq(a, k + 1, k + Len(b)) = b
Negative == {"ne", "nbw", "new", "nct"}

\* The cell is a record [k |-> "s" | "n" | "z" | other, key |-> sequence].
MatchList(c, cell) ==
    CASE cell.k = "s" -> (\E n \in DOMAIN c.items : c.items[n].key = cell.key) \/ (c.blanks /\ cell.key = << >>)
      [] cell.k = "n" -> \E n \in DOMAIN c.items : c.items[n].num /\ c.items[n].n2 = cell.key[1]
      [] cell.k = "z" -> c.blanks
      [] OTHER -> FALSE
MatchOne(e, cell) ==
    LET a == cell.key
        b == e.key
    IN CASE cell.k = "s" ->
              CASE e.k = "eq" -> a = b
                [] e.k = "ne" -> a # b
                [] e.k = "lt" -> LexLess(a, b)
                [] e.k = "gt" -> LexLess(b, a)
                [] e.k = "le" -> ~LexLess(b, a)
                [] e.k = "ge" -> ~LexLess(a, b)
                [] e.k = "bw" -> Begins(a, b)
                [] e.k = "nbw" -> ~Begins(a, b)
                [] e.k = "ew" -> Ends(a, b)
                [] e.k = "new" -> ~Ends(a, b)
                [] e.k = "ct" -> Holds(a, b)
                [] OTHER -> ~Holds(a, b)
         [] cell.k = "n" /\ e.num /\ e.k \in {"eq", "ne", "lt", "gt", "le", "ge"} ->
              CASE e.k = "eq" -> a[1] = e.n2
                [] e.k = "ne" -> a[1] # e.n2
                [] e.k = "lt" -> a[1] < e.n2
                [] e.k = "gt" -> a[1] > e.n2
                [] e.k = "le" -> a[1] <= e.n2
                [] OTHER -> a[1] >= e.n2
         \* "Not a blank" is written as not equal to a space.
         [] cell.k = "z" /\ e.k = "ne" /\ e.x = " " -> FALSE
         \* Cells that do not hold a value of the kind compared with differ from it.
         [] OTHER -> e.k \in Negative
Match(c, cell) ==
    IF c.list THEN MatchList(c, cell)
    ELSE CASE Len(c.cus) = 0 -> FALSE
           [] Len(c.cus) = 1 -> MatchOne(c.cus[1], cell)
           [] c.or -> MatchOne(c.cus[1], cell) \/ MatchOne(c.cus[2], cell)
           [] OTHER -> MatchOne(c.cus[1], cell) /\ MatchOne(c.cus[2], cell)

\* What is stored.
OperatorText(k) == CASE k \in {"eq", "bw", "ew", "ct"} -> "" [] k \in Negative -> "notEqual" [] k = "lt" -> "lessThan" [] k = "gt" -> "greaterThan"
                     [] k = "le" -> "lessThanOrEqual" [] OTHER -> "greaterThanOrEqual"
ValueText(e) == CASE e.k \in {"ew", "new"} -> "*" \o e.x [] e.k \in {"ct", "nct"} -> "*" \o e.x \o "*" [] e.k \in {"bw", "nbw"} -> e.x \o "*"
                  [] OTHER -> e.x
CondFacts(p, c) ==
    IF c.list
    THEN {<<"fcol">> \o p \o <<"list", IF c.blanks THEN "1" ELSE "0", S(Len(c.items))>>}
         \cup {<<"fval">> \o p \o <<S(n), c.items[n].x>> : n \in DOMAIN c.items}
    ELSE {<<"fcol">> \o p \o <<"custom", IF c.or THEN "or" ELSE "and", S(Len(c.cus))>>}
         \cup {<<"fval">> \o p \o <<S(n), OperatorText(c.cus[n].k), ValueText(c.cus[n])>> : n \in DOMAIN c.cus}
=============================================================================
