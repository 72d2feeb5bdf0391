------------------------------ MODULE MC_Rules -----------------------------
(* Every short history of rules on three overlapping ranges of a worksheet:  *)
(* rules that need an extension and rules that do not, in any order.         *)
EXTENDS Rules, Json
CONSTANTS Depth
VARIABLES st, hist, ok
vars == <<st, hist, ok>>
SpecView == <<st, Len(hist)>>
Cf(r, k) == [op |-> "cf", s |-> 0, r |-> r, c |-> 0, r2 |-> 3, c2 |-> 0, k |-> k, multic |-> << >>, rule |-> "", invert |-> FALSE, n |-> 0, fc |-> << >>, textc |-> << >>, textu |-> 0]
Set(r, k, s) == Cf(r, k) @@ [set |-> s]
A2 == "A2"
Alpha == {Cf(0, "dup"), [Cf(1, "blank") EXCEPT !.invert = TRUE] @@ [stop |-> TRUE], [Cf(0, "top") EXCEPT !.rule = "top", !.n = 1001],
          Set(0, "bar", << >>), Set(1, "bar", <<[k |-> "classic"]>>), Set(1, "bar", <<[k |-> "only", b |-> TRUE]>>),
          Set(0, "icons", <<[k |-> "type", ty |-> "3Stars"]>>), Set(1, "icons", <<[k |-> "type", ty |-> "5Boxes"], [k |-> "reverse", b |-> TRUE]>>),
          Set(1, "icons", <<[k |-> "type", ty |-> "3Flags"]>>), Set(0, "icons", << >>),
          Set(0, "color2", <<[k |-> "minc", c |-> "FF0000"]>>),
          [Cf(1, "dup") EXCEPT !.multic = <<"A", "2", ":", "A", "4">>] @@ [multi |-> "A2:A4"],
          [op |-> "dv", s |-> 0, r |-> 0, c |-> 0, r2 |-> 0, c2 |-> 0, set |-> <<[k |-> "list", items |-> <<"a", "b">>, itemsc |-> << <<"a">>, <<"b">> >>]>>],
          [op |-> "dv", s |-> 0, r |-> 0, c |-> 0, r2 |-> 0, c2 |-> 0, set |-> <<[k |-> "intitle", v |-> "t", vx |-> "t", vn |-> 1]>>],
          [op |-> "dv", s |-> 0, r |-> 0, c |-> 0, r2 |-> 0, c2 |-> 0, set |-> << >>],
          [op |-> "sparkline", s |-> 0, r |-> 0, c |-> 1, r2 |-> 0, c2 |-> 1, set |-> <<[k |-> "range", sheet |-> "S", sc |-> <<"S">>, r |-> 0, c |-> 0, r2 |-> 2, c2 |-> 0]>>],
          [op |-> "sparkline", s |-> 0, r |-> 1, c |-> 1, r2 |-> 1, c2 |-> 1, set |-> <<[k |-> "range", sheet |-> "S", sc |-> <<"S">>, r |-> 0, c |-> 0, r2 |-> 2, c2 |-> 1]>>],
          [op |-> "sparkgroup", s |-> 0, r |-> 2, c |-> 1, r2 |-> 3, c2 |-> 1, set |-> <<[k |-> "range", sheet |-> "S", sc |-> <<"S">>, r |-> 0, c |-> 0, r2 |-> 1, c2 |-> 2]>>],
          [op |-> "save", how |-> "buffer"]}
Init == /\ st = RulesStep(RulesInit([id |-> ""]), [op |-> "add_sheet", mode |-> "std"]).st
        /\ hist = << >> /\ ok = TRUE
Next == /\ Len(hist) < Depth
        /\ \E o \in Alpha :
             /\ o.op = "save" => hist # << >> /\ hist[Len(hist)].op # "save"
             /\ LET r == RulesStep(st, o) IN
                /\ st' = r.st
                /\ ok' = (r.res = "ok" \/ r.st = st)
             /\ hist' = Append(hist, o)
             /\ PrintT("@@HIST " \o ToJson(hist'))
RejectedHasNoEffect == ok
ru == st.rules[1]
\* Every rule added is stored, once, and rules of one range keep their order.
Stored1 == /\ Len(Ordered(ru, ru.order)) = Cardinality({k \in DOMAIN hist : hist[k].op = "cf" /\ ~CfBad(hist[k])})
           /\ Range(ru.order) = DOMAIN ru.cf
           /\ \A k, m \in DOMAIN hist : (k < m /\ hist[k].op = "cf" /\ hist[m].op = "cf" /\ ~CfBad(hist[k]) /\ ~CfBad(hist[m]) /\ SqOf(hist[k]) = SqOf(hist[m]) /\ hist[k] # hist[m]) =>
                LET s == ru.cf[SqOf(hist[k])] IN \E a, b \in DOMAIN s : a < b /\ s[a] = hist[k] /\ s[b] = hist[m]
=============================================================================
