------------------------------- MODULE MC_Tabs ------------------------------
(* Every history of tab settings and saves on three worksheets.  Whatever it  *)
(* is, a save shows exactly one active worksheet, which is visible and        *)
(* selected, and saving changes nothing.                                      *)
EXTENDS Book, Json
CONSTANTS Depth
VARIABLES st, hist, ok
vars == <<st, hist, ok>>
SpecView == <<st, Len(hist)>>
Alpha == {[op |-> x, s |-> k, v |-> b] : x \in {"active", "selected", "hidden", "veryhidden", "firsttab"}, k \in 0 .. 1, b \in BOOLEAN}
         \cup {[op |-> "save", how |-> "buffer"], [op |-> "swap_sheets", a |-> 0, b |-> 1], [op |-> "remove_sheet", i |-> 0],
               [op |-> "add_sheet", mode |-> "std"]}
Enabled(o) == CASE o.op = "swap_sheets" -> Len(st.tabs) >= 2 [] o.op = "remove_sheet" -> Len(st.tabs) >= 2 [] OTHER -> TRUE
Init == /\ st = FoldL(LAMBDA a, k : BookStep(a, [op |-> "add_sheet", mode |-> "std"]).st, BookInit([id |-> ""]), <<1, 2>>)
        /\ hist = << >> /\ ok = TRUE
Next == /\ Len(hist) < Depth
        /\ \E o \in Alpha :
             /\ Enabled(o)
             /\ o.op = "save" => hist # << >> /\ hist[Len(hist)].op # "save"
             /\ LET r == BookStep(st, o) IN
                /\ st' = r.st
                /\ ok' = (o.op = "save" => r.st = st)
             /\ hist' = Append(hist, o)
             /\ PrintT("@@HIST " \o ToJson(hist'))
F == TabFacts(st)
OneActive == Cardinality({f \in F : f[1] = "active"}) = 1
ActiveShown == \A f \in F : f[1] = "active" => <<"selected", f[2]>> \in F /\ \E g \in F : g[1] = "sheet" /\ g[2] = f[2] /\ g[4] = "visible"
SelectedShown == \A f \in F : f[1] = "selected" => \E g \in F : g[1] = "sheet" /\ g[2] = f[2] /\ g[4] = "visible"
SavingChangesNothing == ok
UniqueNames == Cardinality({st.tabs[k].nl : k \in DOMAIN st.tabs}) = Len(st.tabs)
=============================================================================
