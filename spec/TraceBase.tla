----------------------------- MODULE TraceBase -----------------------------
(* Trace validation: every line of the NDJSON file named by TRACE is one    *)
(* history executed by the real code: its operations, the result the code   *)
(* returned for each, and, for operations that produce an observable         *)
(* artefact (a saved file), the set of facts an independent reader extracted *)
(* from it.  TLC steps the specification alongside and reports every         *)
(* difference.  One initial state per history lets TLC's workers share them. *)
EXTENDS VBase, Json, IOUtils

CONSTANTS Step(_, _),        \* specification transition: state, op -> [st, res]
          InitSt(_),         \* initial state for a case
          Expect(_, _, _)    \* facts expected for: case, state after op, op

VARIABLES c, i, st, alive
tvars == <<c, i, st, alive>>

Cases == ndJsonDeserialize(IOEnv.TRACE)

TInit == /\ c \in 1 .. Len(Cases)
         /\ i = 0
         /\ st = InitSt(Cases[c])
         /\ alive = TRUE

Report(kind, exp, got) ==
    PrintT("@@MISMATCH " \o ToJson([id |-> Cases[c].id, step |-> i + 1, kind |-> kind,
                                    exp |-> exp, got |-> got]))

\* Some properties only distinguish accepted from rejected calls.
Class(x) == IF Len(x) >= 4 /\ SubSeq(x, 1, 4) = "err:" THEN "err" ELSE x
Same(cs, a, b) == IF Get(cs, "lax", FALSE) THEN Class(a) = Class(b) ELSE a = b

ObsSet(x) == {x[k] : k \in DOMAIN x}

TNext ==
    /\ alive
    /\ i < Len(Cases[c].ops)
    /\ LET o == Cases[c].ops[i + 1]
           out == Step(st, o)
           got == Cases[c].res[i + 1]
           resok == IF Has(out, "any") THEN \E x \in out.any : Same(Cases[c], x, got)
                    ELSE Same(Cases[c], out.res, got)
           hasobs == ToString(i + 1) \in DOMAIN Cases[c].obs
           obs == IF hasobs THEN ObsSet(Cases[c].obs[ToString(i + 1)]) ELSE {}
           exp == IF hasobs /\ resok THEN Expect(Cases[c], out.st, o) ELSE {}
           good == resok /\ obs = exp
       IN /\ IF good THEN TRUE
             ELSE IF ~resok THEN Report("result", {<<out.res>>}, {<<got>>})
             ELSE Report("facts", exp \ obs, obs \ exp)
          /\ st' = out.st
          /\ i' = i + 1
          /\ c' = c
          /\ alive' = good

TSpec == TInit /\ [][TNext]_tvars
\* Counters for the evidence file.
Stats == /\ PrintT("@@STATS " \o ToJson([cases |-> Len(Cases), ops |-> SumSeq([k \in 1 .. Len(Cases) |-> Len(Cases[k].ops)])]))
=============================================================================
