------------------------------- MODULE Resave -------------------------------
(* What saving may and may not do, whatever the workbook contains.           *)
(*                                                                            *)
(* The content of a workbook is here the sequence of edits made to it; the    *)
(* specification does not say what an edit does, but that the same edits      *)
(* always give the same result (edges), the same outcome of a save (outcome)  *)
(* and a file with the same meaning (seen), however many saves, successful or *)
(* not, were made in between; that two saves without an edit in between give  *)
(* the same bytes; and that a save of which a write fails says so.            *)
EXTENDS VBase

Faults == {"save_fault", "save_limit"}
NoWay == {"save_devfull", "save_badpath"}
Lost == {"panic", "abort", "hang"}
IoErrors == {"err:IoError", "err:ZipError"}

Fresh(res) == [res |-> res, n |-> 0, con |-> << >>, edges |-> Empty, seen |-> Empty,
               outcome |-> Empty, last |-> 0, cm |-> 0, cb |-> 0]

\* The result of this step in the recorded history.
Now(st) == st.res[st.n + 1]

Edit(st, o) ==
    LET key == <<st.con, o.u>>
        known == key \in DOMAIN st.edges
        res == IF known THEN st.edges[key] ELSE Now(st)
    IN [st |-> [st EXCEPT !.n = @ + 1, !.con = Append(@, o.u), !.last = 0,
                          !.edges = IF known THEN @ ELSE Put(@, key, res)],
        res |-> IF res \in Lost THEN "no panic" ELSE res]

\* A save which gave a file.
Saved(st) ==
    LET k == st.n + 1
        new == st.con \notin DOMAIN st.seen
    IN [st EXCEPT !.n = k, !.last = IF @ = 0 THEN k ELSE @,
                  !.seen = IF new THEN Put(@, st.con, k) ELSE @,
                  !.cm = IF new THEN k ELSE st.seen[st.con],
                  !.cb = IF st.last = 0 THEN k ELSE st.last,
                  !.outcome = IF st.con \in DOMAIN @ THEN @ ELSE Put(@, st.con, "ok")]
Unsaved(st, e) == [st EXCEPT !.n = @ + 1, !.outcome = IF st.con \in DOMAIN @ THEN @ ELSE Put(@, st.con, e)]

Save(st) ==
    LET known == st.con \in DOMAIN st.outcome
        res == IF known THEN st.outcome[st.con] ELSE Now(st)
    IN [st |-> IF res = "ok" THEN Saved(st) ELSE Unsaved(st, res),
        res |-> IF res \in Lost \cup IoErrors THEN "no such error" ELSE res]

\* A save into an output which may fail: it fails, or the file is complete.
\* A workbook which cannot be saved may be refused before anything is written.
FaultySave(st) ==
    LET known == st.con \in DOMAIN st.outcome
        good == ~known \/ st.outcome[st.con] = "ok"
        can == (IF good THEN {"ok"} ELSE {st.outcome[st.con]}) \cup IoErrors \cup (IF known THEN {} ELSE {Now(st)} \ Lost)
    IN [st |-> IF Now(st) = "ok" /\ good THEN Saved(st) ELSE [st EXCEPT !.n = @ + 1],
        res |-> "ok or an error", any |-> can]

\* A save which cannot succeed.
HopelessSave(st) ==
    LET known == st.con \in DOMAIN st.outcome
        can == IoErrors \cup (IF known THEN {st.outcome[st.con]} ELSE {Now(st)})
    IN [st |-> [st EXCEPT !.n = @ + 1], res |-> "an error", any |-> can \ ({"ok"} \cup Lost)]

ResaveStep(st, o) ==
    IF o.op = "new_wb" THEN Ok([st EXCEPT !.n = @ + 1, !.con = << >>, !.last = 0])
    ELSE IF o.op = "save" THEN Save(st)
    ELSE IF o.op \in Faults THEN FaultySave(st)
    ELSE IF o.op \in NoWay THEN HopelessSave(st)
    ELSE Edit(st, o)

ResaveInit(cs) == Fresh(cs.res)

\* The same calls and saves again, in another workbook: everything is the same.
RepeatStep(st, o) ==
    IF o.op = "new_wb" THEN Ok([st EXCEPT !.n = @ + 1, !.con = << >>])
    ELSE LET key == Append(st.con, o.u)
             known == key \in DOMAIN st.seen
             first == IF known THEN st.seen[key] ELSE st.n + 1
             res == st.res[first]
         IN [st |-> [st EXCEPT !.n = @ + 1, !.con = key, !.cm = first, !.cb = first, !.seen = IF known THEN @ ELSE Put(@, key, first)],
             res |-> IF res \in Lost THEN "no panic" ELSE res]

\* The facts of the file saved at step k of a case: its meaning and its bytes.
Facts(cs, k, kind) == {f \in {cs.obs[S(k)][j] : j \in DOMAIN cs.obs[S(k)]} : f[1] = kind}
ResaveExpect(cs, st, o) == Facts(cs, st.cm, "m") \cup Facts(cs, st.cb, "b")
=============================================================================
