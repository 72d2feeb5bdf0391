------------------------------- MODULE VBase -------------------------------
(* Helpers shared by every module of the specification.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Optional field of an operation record.
Has(o, k) == k \in DOMAIN o
Get(o, k, d) == IF k \in DOMAIN o THEN o[k] ELSE d
Flag(o, k) == k \in DOMAIN o /\ o[k] = TRUE

S(n) == ToString(n)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Empty == << >>
\* Update (or extend) a partial function; remove keys from it.
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
\* Left-biased union of two partial functions.
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
\* Outcome of an operation.
Ok(st) == [st |-> st, res |-> "ok"]
Err(st, e) == [st |-> st, res |-> "err:" \o e]
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN 0 ELSE s[1] + SumSeq(Tail(s))
RECURSIVE FoldL(_, _, _)
FoldL(F(_, _), a, s) == IF s = << >> THEN a ELSE FoldL(F, F(a, s[1]), Tail(s))
SetMax(s) == CHOOSE x \in s : \A y \in s : y <= x
SetMin(s) == CHOOSE x \in s : \A y \in s : x <= y
RECURSIVE SortedSeq(_)
SortedSeq(s) == IF s = {} THEN << >> ELSE LET m == SetMin(s) IN <<m>> \o SortedSeq(s \ {m})
NAT(b) == IF b THEN "1" ELSE "0"

ROWMAX == 1048576
COLMAX == 16384
=============================================================================
