-------------------------------- MODULE Pure --------------------------------
(* Conversions that depend on their arguments only.                          *)
EXTENDS Refs, Dates
PureInit(cs) == << >>
PureStep(st, o) == [st |-> st, res |-> IF o.op \in DateOps THEN DateRes(o) ELSE RefsRes(o)]
PureExpect(cs, st, o) == IF o.op \in DateOps THEN DateExpect(o) ELSE RefsExpect(o)
=============================================================================
