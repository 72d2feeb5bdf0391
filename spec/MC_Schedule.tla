----------------------------- MODULE MC_Schedule -----------------------------
(* Every schedule of every program of some calls for each thread.            *)
EXTENDS Schedule, Json
CONSTANTS Keys, Lens
Two == <<2, 2>>
More == <<1, 1, 2>>
Three == {<<"format", "A">>, <<"format", "B">>, <<"string", "x">>}
Zero == <<0, 0, 0, 0, 0>>
Progs == {p \in [Threads -> UNION {[1 .. n -> Keys] : n \in Range(Lens)}] : \A t \in Threads : Len(p[t]) = Lens[t]}
Init == \E p \in Progs : Start(p)
Out == PrintT("@@HIST " \o ToJson(<<[prog |-> prog, sched |-> hist', pack |-> packed']>>))
Next == \/ \E t \in Threads : (Step(t) \/ Assemble(t)) /\ (IF Finished' THEN Out ELSE TRUE)
        \/ Finished /\ UNCHANGED vars
=============================================================================
