------------------------------ MODULE MC_Cells ------------------------------
(* Contents of a few cells under every kind of write, merge, clear and       *)
(* reformat: the cell shows what the last accepted call that covers it wrote.*)
EXTENDS MCBase

P == {<<0, 0>>, <<0, 1>>, <<1, 0>>}
B == [b |-> "1"]
At(p, o) == o @@ [s |-> 0, r |-> p[1], c |-> p[2]]
CellOps == UNION { { At(p, [op |-> "num", v |-> "1.0"]),
                     At(p, [op |-> "str", v |-> "a", vt |-> "a", vlen |-> 1, hf |-> TRUE, f |-> B]),
                     At(p, [op |-> "str", v |-> "", vt |-> "", vlen |-> 0]),
                     At(p, [op |-> "bool", v |-> TRUE]),
                     At(p, [op |-> "blank", hf |-> TRUE, f |-> B]),
                     At(p, [op |-> "formula", v |-> "=1+1", ft |-> "1+1"]),
                     At(p, [op |-> "set_result", v |-> "5", rt |-> "n", rv |-> "5.0"]),
                     At(p, [op |-> "num", v |-> "NaN"]),
                     At(p, [op |-> "clear"]) } : p \in P }
RangeOps == { At(<<0, 0>>, [op |-> "merge", r2 |-> 0, c2 |-> 1, v |-> "m", vt |-> "m", vlen |-> 1, hf |-> TRUE, f |-> B]),
              At(<<0, 0>>, [op |-> "merge", r2 |-> 1, c2 |-> 0, v |-> "", vt |-> "", vlen |-> 0, hf |-> TRUE, f |-> B]),
              At(<<0, 0>>, [op |-> "merge", r2 |-> 0, c2 |-> 0, v |-> "m", vt |-> "m", vlen |-> 1, hf |-> TRUE, f |-> B]),
              At(<<0, 0>>, [op |-> "array", r2 |-> 1, c2 |-> 0, v |-> "=2", ft |-> "2"]),
              At(<<0, 0>>, [op |-> "dynarray", r2 |-> 0, c2 |-> 1, v |-> "=3", ft |-> "3", res |-> "x", rt |-> "str", rv |-> "x"]),
              At(<<0, 1>>, [op |-> "row", vs |-> <<"7.0", "8.0">>, ps |-> <<<<0, 1>>, <<0, 2>>>>, fl |-> <<"7.0", "8.0">>]),
              At(<<0, 16383>>, [op |-> "row", vs |-> <<"7.0", "8.0">>, ps |-> <<<<0, 16383>>, <<0, 16384>>>>, fl |-> <<"7.0", "8.0">>]) }
AlphaV == CellOps \cup RangeOps
StartV == << [op |-> "add_sheet", mode |-> "std"] >>

\* The property stated independently of the state machine: for every cell,
\* look back for the last accepted call that writes it.
Covers(o, p) == CASE o.op \in {"num", "bool", "formula", "clear"} -> <<o.r, o.c>> = p
                  [] o.op = "blank" -> <<o.r, o.c>> = p
                  [] o.op = "str" -> <<o.r, o.c>> = p /\ (o.vlen > 0 \/ Flag(o, "hf"))
                  [] o.op \in {"merge", "array", "dynarray"} -> o.r <= p[1] /\ p[1] <= o.r2 /\ o.c <= p[2] /\ p[2] <= o.c2
                  [] o.op = "row" -> p \in Range(o.ps) /\ p[2] < COLMAX
                  [] OTHER -> FALSE
Shown(o, p) == CASE o.op = "num" -> IF o.v = "NaN" THEN <<"s", "NAN">> ELSE <<"n", o.v>>
                 [] o.op = "bool" -> <<"b", "1">>
                 [] o.op = "formula" -> <<"f", o.ft>>
                 [] o.op = "clear" -> << >>
                 [] o.op = "blank" -> <<"z", "">>
                 [] o.op = "str" -> IF o.vlen = 0 THEN <<"z", "">> ELSE <<"s", o.v>>
                 [] o.op = "merge" -> IF p = <<o.r, o.c>> /\ o.vlen > 0 THEN <<"s", o.v>> ELSE <<"z", "">>
                 [] o.op = "array" -> IF p = <<o.r, o.c>> THEN <<"a", o.ft>> ELSE <<"n", "0.0">>
                 [] o.op = "dynarray" -> IF p = <<o.r, o.c>> THEN <<"d", o.ft>> ELSE <<"n", "0.0">>
                 [] OTHER -> <<"n", o.fl[CHOOSE k \in DOMAIN o.ps : o.ps[k] = p]>>
\* Which calls of the history were accepted.
Accepted(k) == LET before == ApplyAll(ApplyAll(GridInit([id |-> ""]), StartV), SubSeq(hist, 1, k - 1))
               IN GridStep(before, hist[k]).res = "ok" \/ hist[k].op = "row"
LastWriteWins ==
    \A p \in P \cup {<<0, 2>>, <<1, 1>>, <<0, 16383>>} :
        LET ks == {k \in DOMAIN hist : Covers(hist[k], p) /\ Accepted(k)}
            cell == st.sheets[1].cells
        IN IF ks = {} THEN p \notin DOMAIN cell
           ELSE LET want == Shown(hist[SetMax(ks)], p) IN
                IF want = << >> THEN p \notin DOMAIN cell
                ELSE p \in DOMAIN cell /\ <<cell[p].k, cell[p].v>> = want
=============================================================================
