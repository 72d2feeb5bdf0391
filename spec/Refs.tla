-------------------------------- MODULE Refs --------------------------------
(* Cell references, ranges and worksheet names in references.  Texts whose   *)
(* characters matter are sequences of characters in their encoded form.      *)
EXTENDS Links

UPPER == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER == "abcdefghijklmnopqrstuvwxyz"
UpSet == {SubSeq(UPPER, k, k) : k \in 1 .. 26}
LowSet == {SubSeq(LOWER, k, k) : k \in 1 .. 26}
DigSet == {S(k) : k \in 0 .. 9}
IndexIn(s, ch) == CHOOSE k \in 1 .. Len(s) : SubSeq(s, k, k) = ch
UpCh(ch) == IF ch \in LowSet THEN LET k == IndexIn(LOWER, ch) IN SubSeq(UPPER, k, k) ELSE ch
Up(cs) == [k \in DOMAIN cs |-> UpCh(cs[k])]
DigVal(ch) == CHOOSE d \in 0 .. 9 : S(d) = ch

\* ---- columns: bijective base 26 ----
RECURSIVE ColNameN(_)
ColNameN(n) == IF n = 0 THEN "" ELSE LET d == (n - 1) % 26 IN ColNameN((n - 1) \div 26) \o SubSeq(UPPER, d + 1, d + 1)
ColName(c) == ColNameN(c + 1)
RECURSIVE ColVal(_)
ColVal(cs) == IF cs = << >> THEN 0 ELSE 26 * ColVal(SubSeq(cs, 1, Len(cs) - 1)) + IndexIn(UPPER, cs[Len(cs)])
ColNum(cs) == ColVal(cs) - 1

Cell1(r, c) == ColName(c) \o S(r + 1)
CellAbs(r, c) == "$" \o ColName(c) \o "$" \o S(r + 1)
RangeRef(r, c, r2, c2) == IF r = r2 /\ c = c2 THEN Cell1(r, c) ELSE Cell1(r, c) \o ":" \o Cell1(r2, c2)
RangeAbs(r, c, r2, c2) == IF r = r2 /\ c = c2 THEN CellAbs(r, c) ELSE CellAbs(r, c) \o ":" \o CellAbs(r2, c2)

\* ---- numbers ----
RECURSIVE SeqVal(_)
SeqVal(ds) == IF ds = << >> THEN 0 ELSE 10 * SeqVal(SubSeq(ds, 1, Len(ds) - 1)) + DigVal(ds[Len(ds)])
RECURSIVE DropZeros(_)
DropZeros(ds) == IF ds # << >> /\ ds[1] = "0" THEN DropZeros(Tail(ds)) ELSE ds
\* Is the number in 1 .. max?
InLimit(ds, max) == LET z == DropZeros(ds) IN z # << >> /\ Len(z) <= 8 /\ SeqVal(z) <= max
RECURSIVE LeadDigits(_)
LeadDigits(cs) == IF cs # << >> /\ cs[1] \in DigSet THEN <<cs[1]>> \o LeadDigits(Tail(cs)) ELSE << >>

\* ---- worksheet names ----
WideWord == {"%E9;", "%C9;", "%DF;", "%3A9;", "%4E2D;", "%6587;", "%B2;"}     \* letters and digits outside ASCII
Emoji == {"%1F600;", "%2603;", "%2B50;"}
WordCh(ch) == ch \in UpSet \cup LowSet \cup DigSet \cup WideWord \cup {"_"}
FirstDigit(cs) == LET ks == {k \in DOMAIN cs : cs[k] \in DigSet} IN IF ks = {} THEN 0 ELSE SetMin(ks)
NeedsQuotes(cs) ==
    LET d == FirstDigit(cs)
        head == IF d = 0 THEN << >> ELSE Up(SubSeq(cs, 1, d - 1))
        tail == IF d = 0 THEN << >> ELSE SubSeq(cs, d, Len(cs))
        num == LeadDigits(tail)
    IN \/ \E k \in DOMAIN cs : ~(WordCh(cs[k]) \/ cs[k] = "." \/ cs[k] \in Emoji)
       \/ cs # << >> /\ cs[1] \in DigSet \cup {"."} \cup Emoji
       \* looks like A1
       \/ Len(head) \in 1 .. 3 /\ (\A k \in DOMAIN head : head[k] \in UpSet) /\ num = tail
          /\ ColVal(head) <= COLMAX /\ InLimit(tail, ROWMAX)
       \* starts like R1C1
       \/ head = <<"R">> /\ InLimit(num, ROWMAX)
       \/ head \in {<<"R", "C">>, <<"C">>} /\ InLimit(num, COLMAX)
       \/ Up(cs) \in {<<"R">>, <<"C">>, <<"R", "C">>}
RECURSIVE Doubled(_)
Doubled(cs) == IF cs = << >> THEN << >> ELSE (IF cs[1] = "'" THEN <<"'", "'">> ELSE <<cs[1]>>) \o Doubled(Tail(cs))
\* Names that start with a quote are taken to be quoted already.
Quoted(cs) == IF cs # << >> /\ cs[1] = "'" THEN Join(cs)
              ELSE IF NeedsQuotes(cs) THEN "'" \o Join(Doubled(cs)) \o "'" ELSE Join(cs)
RECURSIVE Undoubled(_)
Undoubled(cs) == IF cs = << >> THEN << >>
                 ELSE IF Len(cs) >= 2 /\ cs[1] = "'" /\ cs[2] = "'" THEN <<"'">> \o Undoubled(SubSeq(cs, 3, Len(cs)))
                 ELSE <<cs[1]>> \o Undoubled(Tail(cs))
Unquoted(cs) == IF Len(cs) >= 2 /\ cs[1] = "'" /\ cs[Len(cs)] = "'" THEN Undoubled(SubSeq(cs, 2, Len(cs) - 1)) ELSE cs

BadNameCh == {"*", "?", ":", "[", "]", "%5C;", "/"}
NameErr(cs) == IF cs = << >> THEN "SheetnameCannotBeBlank"
               ELSE IF Len(cs) > 31 THEN "SheetnameLengthExceeded"
               ELSE IF \E k \in DOMAIN cs : cs[k] \in BadNameCh THEN "SheetnameContainsInvalidCharacter"
               ELSE IF cs[1] = "'" \/ cs[Len(cs)] = "'" THEN "SheetnameStartsOrEndsWithApostrophe"
               ELSE ""

\* ---- references read from text: [ok, sheet, r, c, r2, c2] ----
NoDollar(cs) == SelectSeq(cs, LAMBDA ch : ch # "$")
ParseCell(cs) ==
    LET d == FirstDigit(cs)
        head == SubSeq(cs, 1, d - 1)
        tail == SubSeq(cs, d, Len(cs))
    IN IF d < 2 \/ d > 4 \/ (\E k \in DOMAIN head : head[k] \notin UpSet) \/ LeadDigits(tail) # tail \/ Len(tail) > 8 THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, r |-> SeqVal(tail) - 1, c |-> ColNum(head)]
LastPos(cs, ch) == LET ks == {k \in DOMAIN cs : cs[k] = ch} IN IF ks = {} THEN 0 ELSE SetMax(ks)
ParseRange(cs0) ==
    LET cs == IF cs0 # << >> /\ cs0[1] = "=" THEN Tail(cs0) ELSE cs0
        b == LastPos(cs, "!")
        ref == NoDollar(SubSeq(cs, b + 1, Len(cs)))
        k == Pos(ref, ":")
        p == ParseCell(IF k = 0 THEN ref ELSE SubSeq(ref, 1, k - 1))
        q == IF k = 0 THEN p ELSE ParseCell(SubSeq(ref, k + 1, Len(ref)))
    IN IF b < 2 \/ ~p.ok \/ ~q.ok THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, sheet |-> Unquoted(SubSeq(cs, 1, b - 1)), r |-> p.r, c |-> p.c, r2 |-> q.r, c2 |-> q.c]

----------------------------------------------------------------------------
(* The conversion functions as operations; their value is the observation.  *)
RefsExpect(o) ==
    CASE o.op = "colnames" -> {<<"val", S(k - o.lo + 1), ColName(k)>> : k \in o.lo .. o.hi}
      [] o.op = "colnums" -> {<<"val", S(k), S(ColNum(o.namec[k]))>> : k \in DOMAIN o.namec}
      [] o.op = "cellref" -> {<<"val", "1", Cell1(o.r, o.c)>>, <<"val", "2", CellAbs(o.r, o.c)>>}
      [] o.op = "rangeref" -> {<<"val", "1", RangeRef(o.r, o.c, o.r2, o.c2)>>, <<"val", "2", RangeAbs(o.r, o.c, o.r2, o.c2)>>}
      [] o.op = "wsrange" -> {<<"val", "1", Quoted(o.nc) \o "!" \o RangeRef(o.r, o.c, o.r2, o.c2)>>,
                              <<"val", "2", Quoted(o.nc) \o "!" \o RangeAbs(o.r, o.c, o.r2, o.c2)>>}
      [] o.op = "quote" -> {<<"val", Quoted(o.nc)>>}
      [] OTHER -> {}
RefsRes(o) == CASE o.op = "checkname" /\ NameErr(o.nc) # "" -> "err:" \o NameErr(o.nc)
                [] OTHER -> "ok"
=============================================================================
