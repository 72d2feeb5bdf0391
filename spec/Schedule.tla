------------------------------ MODULE Schedule ------------------------------
(* Threads which write worksheets of one workbook at the same time.          *)
(*                                                                            *)
(* They share the registry of formats, which is read under one lock and added*)
(* to under another, and the table of strings.  A call which uses a format    *)
(* looks for it; if it is there the call ends, else the thread may be held    *)
(* before it adds it.  A call which writes a string may be held before it     *)
(* enters the string into the table.  Every number given out must go on to    *)
(* mean the same format or string, whatever the schedule: then each worksheet *)
(* shows what its own thread wrote, as if there were no others (Alone).        *)
(*                                                                            *)
(* Afterwards the parts of the worksheets are assembled, in any order.        *)
EXTENDS VBase

CONSTANTS Threads,   \* 1 .. n
          Again,     \* whether a format is looked for again before it is added
          Packing    \* whether the order of assembly is explored as well
VARIABLES prog,      \* what each thread does: sequence of <<kind, key>>
          pc, held,  \* next call; whether the thread is held inside it
          formats, strings,   \* key -> number
          cells,     \* what has been written: <<thread, call, kind, key, number>>
          packed,    \* worksheets assembled so far
          hist       \* the schedule
vars == <<prog, pc, held, formats, strings, cells, packed, hist>>

Start(p) == /\ prog = p
            /\ pc = [t \in Threads |-> 1] /\ held = [t \in Threads |-> FALSE]
            /\ formats = ("default" :> 0) /\ strings = Empty /\ cells = {} /\ packed = << >> /\ hist = << >>

Busy(t) == pc[t] <= Len(prog[t])
Call(t) == prog[t][pc[t]]
Size(m) == Cardinality(DOMAIN m)
Write(t, number) == /\ cells' = cells \cup {<<t, pc[t], Call(t)[1], Call(t)[2], number>>}
                    /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ held' = [held EXCEPT ![t] = FALSE]
Hold(t) == held' = [held EXCEPT ![t] = TRUE] /\ UNCHANGED <<pc, cells>>

\* The number a key is given: that which it has, or the next one.
Entered(m, key, check) == IF check /\ key \in DOMAIN m THEN m ELSE Put(m, key, Size(m))

Look(t) == /\ Busy(t) /\ ~held[t] /\ Call(t)[1] = "format"
           /\ IF Call(t)[2] \in DOMAIN formats THEN Write(t, formats[Call(t)[2]]) ELSE Hold(t)
           /\ UNCHANGED <<formats, strings>>
Add(t) == /\ Busy(t) /\ held[t] /\ Call(t)[1] = "format"
          /\ formats' = Entered(formats, Call(t)[2], Again)
          /\ Write(t, formats'[Call(t)[2]])
          /\ UNCHANGED strings
Reach(t) == /\ Busy(t) /\ ~held[t] /\ Call(t)[1] = "string"
            /\ Hold(t) /\ UNCHANGED <<formats, strings>>
Enter(t) == /\ Busy(t) /\ held[t] /\ Call(t)[1] = "string"
            /\ strings' = Entered(strings, Call(t)[2], TRUE)
            /\ Write(t, strings'[Call(t)[2]])
            /\ UNCHANGED formats
Written == \A t \in Threads : ~Busy(t)
Step(t) == /\ (Look(t) \/ Add(t) \/ Reach(t) \/ Enter(t))
           /\ hist' = Append(hist, t - 1)
           /\ UNCHANGED <<prog, packed>>
Assemble(t) == /\ Packing /\ Written /\ t \notin Range(packed)
               /\ packed' = Append(packed, t)
               /\ UNCHANGED <<prog, pc, held, formats, strings, cells, hist>>
Finished == Written /\ (~Packing \/ Len(packed) = Cardinality(Threads))

\* Numbers are dense, each means one thing, and never another.
OneToOne(m) == /\ \A a, b \in DOMAIN m : m[a] = m[b] => a = b
               /\ {m[a] : a \in DOMAIN m} = 0 .. (Size(m) - 1)
Registries == OneToOne(formats) /\ OneToOne(strings)
Meaning == \A c \in cells : c[5] = (IF c[3] = "format" THEN formats ELSE strings)[c[4]]
\* What a thread has written is what it was told to write, in its order.
Alone == \A t \in Threads : {<<c[2], c[3], c[4]>> : c \in {x \in cells : x[1] = t}} = {<<k, prog[t][k][1], prog[t][k][2]>> : k \in 1 .. (pc[t] - 1)}
\* Only a thread inside a call is held, and nothing is entered which no thread wrote or is about to.
Used == /\ \A t \in Threads : held[t] => Busy(t)
        /\ \A f \in DOMAIN formats \ {"default"} : \E c \in cells : c[3] = "format" /\ c[4] = f
        /\ \A f \in DOMAIN strings : \E c \in cells : c[3] = "string" /\ c[4] = f
=============================================================================
