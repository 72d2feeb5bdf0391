----------------------------- MODULE MC_Objects ----------------------------
(* Every short history of objects, row and column sizes and saves on one     *)
(* worksheet.  Where an object is drawn depends on the sizes at the save,    *)
(* however they came about, and distances over cells are kept.               *)
EXTENDS Objects, Json
CONSTANTS Depth
VARIABLES st, hist, ok
vars == <<st, hist, ok>>
SpecView == <<st, Len(hist)>>
Base(r, c, xo, yo, mv) == [s |-> 0, r |-> r, c |-> c, xo |-> xo, yo |-> yo, altx |-> "", deco |-> FALSE, mv |-> mv]
Img(k) == [t |-> "png", id |-> k, w |-> 64, h |-> 40, dx |-> 0, dy |-> 0, unit |-> 0, mid |-> "png:" \o S(k), wu |-> 19200, hu |-> 12000, scaled |-> FALSE,
           altx |-> "", deco |-> FALSE, mv |-> "movesize", mvv |-> "movesize"]
Image(k, r, c, xo) == [op |-> "image", s |-> 0, r |-> r, c |-> c, xo |-> xo, yo |-> 0, img |-> Img(k)]
Chart(r) == Base(r, 1, 70, 0, "movesize") @@ [op |-> "ochart", type |-> "column", nser |-> 1, wu |-> 144000, hu |-> 86400, titlex |-> "", namex |-> ""]
Shape == Base(1, 1, 0, 70, "after") @@ [op |-> "shape", opts |-> << >>, style |-> << >>, text |-> "T", textx |-> "T", linkx |-> "", wu |-> 57600, hu |-> 36000, mvv |-> "after"]
Button == Base(1, 0, 70, 70, "movesize") @@ [op |-> "button", wu |-> 19200, hu |-> 6000, capx |-> "", macx |-> ""]
Note(r, v) == Base(r, 1, 0, 0, "none") @@ [op |-> "note", text |-> "n", textx |-> "n", textn |-> 1, authorx |-> "", prefix |-> TRUE, vis |-> v,
                                           bg |-> "FFFFE1", fn |-> "Tahoma", fs |-> "8.0", fam |-> "2", wu |-> 38400, hu |-> 22200]
                 @@ (IF v = "" THEN Empty ELSE [visv |-> v = "1"])
Alpha == {Image(0, 1, 1, 0), Image(1, 1, 1, 0), Image(0, 0, 0, 70), Chart(0), Chart(2), Shape, Button, Note(0, ""), Note(1, "0"),
          [op |-> "shownotes", s |-> 0, v |-> TRUE], [op |-> "shownotes", s |-> 0, v |-> FALSE],
          [op |-> "rdefaultpx", s |-> 0, v |-> 30, zero |-> FALSE, wd |-> "22.5", hpx |-> 30],
          [op |-> "cwidthpx", s |-> 0, c |-> 1, v |-> 100, zero |-> FALSE, wd |-> "100", milli |-> 100],
          [op |-> "chide", s |-> 0, c |-> 1], [op |-> "rhide", s |-> 0, r |-> 1], [op |-> "runhide", s |-> 0, r |-> 1],
          [op |-> "rheightpx", s |-> 0, r |-> 2, v |-> 7, zero |-> FALSE, wd |-> "5.25", hpx |-> 7], [op |-> "save", how |-> "buffer"]}
Init == /\ st = ObjectsStep(ObjInit([id |-> ""]), [op |-> "add_sheet", mode |-> "std"]).st
        /\ hist = << >> /\ ok = TRUE
Next == /\ Len(hist) < Depth
        /\ \E o \in Alpha :
             /\ o.op = "save" => hist # << >> /\ hist[Len(hist)].op # "save"
             /\ LET r == ObjectsStep(st, o) IN
                /\ st' = r.st
                /\ ok' = (o.op = "save" => r.st = st)
             /\ hist' = Append(hist, o)
             /\ PrintT("@@HIST " \o ToJson(hist'))
sh == st.sheets[1]
ob == st.objs[1]
A(k, o) == Anchor(sh, k[1], k[2], k[4], k[3], o.wu, o.hu, o.mv = "after")
\* The start is inside its cell, and so is the end; both are where the offset and size say.
Placed(k, o) ==
    LET a == A(k, o) f == o.mv = "after" IN
    /\ a.fx < PxCol(sh, a.fc, f) /\ a.fy < PxRow(sh, a.fr, f) /\ a.tx < 300 * PxCol(sh, a.tc, f) /\ a.ty < 300 * PxRow(sh, a.tr, f)
    /\ AbsX(sh, a.fc, f) + a.fx = a.ax /\ AbsY(sh, a.fr, f) + a.fy = a.ay
    /\ 300 * AbsX(sh, a.tc, f) + a.tx = 300 * a.ax + o.wu /\ 300 * AbsY(sh, a.tr, f) + a.ty = 300 * a.ay + o.hu
PlacedAll == \A f \in {ob.img, ob.ch, ob.shp, ob.btn} : \A k \in DOMAIN f : Placed(k, f[k])
\* The order of calls that touch different things does not matter.
Sizes == {o \in Alpha : o.op \in {"rdefaultpx", "cwidthpx", "chide", "rhide", "rheightpx"}}
Do(s, o) == ObjectsStep(s, o).st
OrderFree == \A o \in {Image(0, 5, 5, 0), Chart(5), Shape, Note(5, "")} : \A z \in Sizes : Do(Do(st, o), z) = Do(Do(st, z), o)
SavingChangesNothing == ok
=============================================================================
