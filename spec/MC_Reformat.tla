---------------------------- MODULE MC_Reformat -----------------------------
(* Every kind of cell under every kind of reformatting: the contents stay.   *)
EXTENDS MCBase

B == [b |-> "1"]
I == [i |-> "1"]
Edge == [bl |-> "thin", br |-> "double", bt |-> "thick", bb |-> "hair"]
At(r, c, o) == o @@ [s |-> 0, r |-> r, c |-> c]
Writes ==
    { At(1, 1, [op |-> "num", v |-> "1.0"]),
      At(1, 1, [op |-> "str", v |-> "a", vt |-> "a", vlen |-> 1, hf |-> TRUE, f |-> I]),
      At(1, 1, [op |-> "rich", segs |-> <<[f |-> B, t |-> "p", tt |-> "p"], [f |-> I, t |-> "q", tt |-> "q"]>>, hf |-> TRUE, f |-> I]),
      At(1, 1, [op |-> "bool", v |-> TRUE]),
      At(1, 1, [op |-> "checkbox", v |-> TRUE]),
      At(1, 1, [op |-> "blank", hf |-> TRUE, f |-> I]),
      At(1, 1, [op |-> "formula", v |-> "=1+1", ft |-> "1+1", hf |-> TRUE, f |-> I]),
      At(1, 1, [op |-> "array", r2 |-> 1, c2 |-> 2, v |-> "=2", ft |-> "2", hf |-> TRUE, f |-> I]),
      At(1, 1, [op |-> "dynformula", v |-> "=3", ft |-> "3", hf |-> TRUE, f |-> I]),
      At(1, 1, [op |-> "datetime", v |-> "2024-01-01", serial |-> "45292.0", hf |-> TRUE, f |-> [nf |-> "yyyy\\-mm\\-dd"]]),
      At(1, 1, [op |-> "url", url |-> "http://a", uc |-> <<"h", "t", "t", "p", ":", "/", "/", "a">>, utx |-> "", utn |-> 0, tipx |-> "", tipn |-> 0]),
      At(0, 1, [op |-> "merge", r2 |-> 1, c2 |-> 1, v |-> "m", vt |-> "m", vlen |-> 1, hf |-> TRUE, f |-> I]) }
Reformats ==
    { At(1, 1, [op |-> "setf", hf |-> TRUE, f |-> B]),
      At(1, 1, [op |-> "setf", hf |-> TRUE, f |-> NoFmt]),
      At(1, 1, [op |-> "clearf"]),
      At(1, 1, [op |-> "clear"]),
      At(0, 0, [op |-> "setrf", r2 |-> 1, c2 |-> 2, hf |-> TRUE, f |-> B]),
      At(1, 0, [op |-> "rformat", hf |-> TRUE, f |-> B]),
      At(0, 1, [op |-> "cformat", hf |-> TRUE, f |-> I]) }
    \cup { At(r, c, [op |-> "setrfb", r2 |-> r2, c2 |-> c2, hf |-> TRUE, f |-> B, bf |-> Edge]) :
           r \in 0 .. 1, r2 \in 1 .. 2, c \in 0 .. 1, c2 \in 1 .. 2 }
AlphaV == Writes \cup Reformats
StartV == << [op |-> "add_sheet", mode |-> "std"] >>

\* Whatever the last write of the cell was, reformatting kept what it holds.
Content(sh, p) == IF p \in DOMAIN sh.cells /\ sh.cells[p].k # "z" THEN <<sh.cells[p].k, sh.cells[p].v, sh.cells[p].e>> ELSE << >>
ContentKept ==
    LET n == Len(hist) IN
    n > 0 /\ hist[n].op \in {"setf", "clearf", "setrf", "setrfb", "rformat", "cformat"} =>
        LET old == ApplyAll(ApplyAll(GridInit([id |-> ""]), StartV), SubSeq(hist, 1, n - 1)).sheets[1]
            new == st.sheets[1]
        IN \A p \in DOMAIN old.cells \cup DOMAIN new.cells : Content(old, p) = Content(new, p)
=============================================================================
