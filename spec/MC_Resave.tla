----------------------------- MODULE MC_Resave ------------------------------
(* Every history of edits, saves and failing saves: E edits, S saves, F saves *)
(* into an output which fails.  The model of the library is the one the       *)
(* specification demands: nothing but edits changes what a save writes.       *)
(* Transient state (t) stands for what the library computes while saving      *)
(* (ids, hidden rows, caches); it must not survive into the next save.        *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth, MaxEdits
VARIABLES con, t, files, hist
vars == <<con, t, files, hist>>
Init == con = 0 /\ t = 0 /\ files = << >> /\ hist = << >>
Step(a) == /\ Len(hist) < Depth
           /\ hist' = Append(hist, a)
           /\ PrintT("@@HIST " \o ToJson(hist'))
Edit == Step("E") /\ con < MaxEdits /\ con' = con + 1 /\ UNCHANGED <<t, files>>
\* A save computes its transient state from the content, writes, and resets it.
Save == Step("S") /\ con > 0 /\ t' = 0 /\ files' = Append(files, <<con, con>>) /\ UNCHANGED con
Fail == Step("F") /\ con > 0 /\ t' = 0 /\ UNCHANGED <<con, files>>
Next == Edit \/ Save \/ Fail
\* Every file shows the content at the time of the save, and only that.
FilesShowContent == \A k \in DOMAIN files : files[k][1] = files[k][2]
NothingLeft == t = 0
=============================================================================
