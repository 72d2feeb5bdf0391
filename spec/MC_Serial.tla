----------------------------- MODULE MC_Serial -----------------------------
(* Every short history of areas and values of two structs, one of which may  *)
(* hold the other, with and without tables and headers.                      *)
EXTENDS Serial, Json
CONSTANTS Depth, Mode
VARIABLES st, hist, ok
vars == <<st, hist, ok>>
SpecView == <<st, Len(hist)>>
Nm(s) == [t |-> s, low |-> s, n |-> 1]
Num(v) == [a |-> "n", x |-> v, absent |-> FALSE]
\* Values as the code reads them, and as the specification does.
N1 == [f64 |-> "1.0"]
N2 == [f64 |-> "2.0"]
Val(name, fs, in) == [st |-> [name |-> name, fs |-> [k \in DOMAIN fs |-> <<fs[k], in[k]>>]]]
Tree(name, fs, in) == [a |-> "t", name |-> name, fs |-> [k \in DOMAIN fs |-> [nm |-> Nm(fs[k]), v |-> in[k]]], absent |-> FALSE]
SV == Val("S", <<"a", "b">>, <<N1, N2>>)
STree == Tree("S", <<"a", "b">>, <<Num("1.0"), Num("2.0")>>)
TV == Val("T", <<"a", "c">>, <<SV, N2>>)
TTree == Tree("T", <<"a", "c">>, <<STree, Num("2.0")>>)
Seq2V == [seq |-> <<SV, TV>>]
Seq2T == [a |-> "q", vs |-> <<STree, TTree>>, absent |-> FALSE]
Head1(v, t, r, c) == [op |-> "serhead", s |-> 0, r |-> r, c |-> c, via |-> "ser", of |-> v, type |-> t]
None == [hf |-> FALSE, hx |-> << >>, hide |-> FALSE, only |-> FALSE, table |-> << >>, cols |-> << >>, name |-> ""]
Opt(o, x, w) == o @@ [opts |-> x, want |-> w]
SkipA == [field |-> "a", h |-> "a", low |-> "a", n |-> 1, skip |-> TRUE, w |-> << >>, hf |-> FALSE, hx |-> << >>, cf |-> FALSE, cx |-> << >>, vf |-> FALSE, vx |-> << >>]
Alpha == {Head1(SV, STree, 0, 0), Head1(SV, STree, 1, 2), Head1(TV, TTree, 0, 1), Head1(TV, TTree, 3, 0),
          Opt(Head1(SV, STree, 0, 0), [table |-> "default"], [None EXCEPT !.table = <<DefaultTable>>]),
          Opt(Head1(SV, STree, 1, 1), [hide |-> TRUE, table |-> "default"], [None EXCEPT !.hide = TRUE, !.table = <<DefaultTable>>]),
          Opt(Head1(TV, TTree, 0, 2), [table |-> [opts |-> << <<"total", TRUE>> >>, given |-> << >>]], [None EXCEPT !.table = <<[DefaultTable EXCEPT !.total = TRUE]>>]),
          Opt(Head1(TV, TTree, 2, 0), [custom |-> <<[field |-> "a", skip |-> TRUE]>>], [None EXCEPT !.cols = <<SkipA>>]),
          Opt(Head1(TV, TTree, 0, 0), [custom |-> <<[field |-> "x"]>>], [None EXCEPT !.cols = <<[SkipA EXCEPT !.field = "x", !.h = "x"]>>]),
          [op |-> "ser", s |-> 0, v |-> SV, tree |-> STree], [op |-> "ser", s |-> 0, v |-> TV, tree |-> TTree], [op |-> "ser", s |-> 0, v |-> Seq2V, tree |-> Seq2T],
          [op |-> "serdims", s |-> 0, name |-> "S", namex |-> "S", fieldx |-> ""], [op |-> "sercdims", s |-> 0, name |-> "T", field |-> "c", namex |-> "T", fieldx |-> "c"]}
Init == /\ st = SerialStep(SerialInit([id |-> ""]), [op |-> "add_sheet", mode |-> Mode]).st
        /\ hist = << >> /\ ok = TRUE
Next == /\ Len(hist) < Depth
        /\ \E o \in Alpha :
             LET r == SerialStep(st, o) IN
             /\ st' = r.st
             /\ ok' = (r.res = "ok" \/ o.op = "serhead" \/ r.st = st)
             /\ hist' = Append(hist, o)
             /\ PrintT("@@HIST " \o ToJson(hist'))
RejectedHasNoEffect == ok
ar == st.ser[1]
\* One area for each struct, whose rows are below its header.
Areas == /\ Cardinality({ar[k].name : k \in DOMAIN ar}) = Len(ar)
         /\ \A k \in DOMAIN ar : ar[k].next >= ar[k].r1 /\ ar[k].c1 <= ar[k].c2 /\ \A f \in DOMAIN ar[k].fields : ar[k].fields[f].c \in ar[k].c1 .. ar[k].c2
\* As many rows as values of the struct since its area was defined.
RECURSIVE Uses(_, _)
Uses(v, name) == CASE v.a = "t" -> (IF v.name = name THEN 1 ELSE 0) + SumSeq([k \in DOMAIN v.fs |-> Uses(v.fs[k].v, name)])
                   [] v.a = "q" -> SumSeq([k \in DOMAIN v.vs |-> Uses(v.vs[k], name)])
                   [] OTHER -> 0
Since(name) == LET hs == {k \in DOMAIN hist : hist[k].op = "serhead" /\ hist[k].type.name = name} IN IF hs = {} THEN 0 ELSE SetMax(hs)
RowsUsed == \A k \in DOMAIN ar :
              LET a == ar[k]
                  from == Since(a.name)
                  n == SumSeq([m \in DOMAIN hist |-> IF m > from /\ hist[m].op = "ser" THEN Uses(hist[m].tree, a.name) ELSE 0])
              IN \* The last call for it may have been rejected.
                 (a.r1 = hist[from].r /\ a.c1 = hist[from].c) => a.next - a.r1 \in {n, n + 1}
=============================================================================
