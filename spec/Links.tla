------------------------------- MODULE Links -------------------------------
(* Hyperlinks.  A link is a sequence of characters (in their encoded form).  *)
EXTENDS VBase

Tok(s) == [k \in 1 .. Len(s) |-> SubSeq(s, k, k)]
StartsWith(u, s) == Len(u) >= Len(s) /\ SubSeq(u, 1, Len(s)) = Tok(s)
Drop(u, n) == SubSeq(u, n + 1, Len(u))
RECURSIVE Join(_)
\* Balanced concatenation.
Join(u) == IF u = << >> THEN "" ELSE IF Len(u) = 1 THEN u[1]
           ELSE LET h == Len(u) \div 2 IN Join(SubSeq(u, 1, h)) \o Join(SubSeq(u, h + 1, Len(u)))
Pos(u, ch) == LET ks == {k \in DOMAIN u : u[k] = ch} IN IF ks = {} THEN 0 ELSE SetMin(ks)

\* Characters a target may not hold; "%25;" is an encoded percent sign.
UrlEsc(t) == CASE t = "%25;" -> "%25;25" [] t = "%22;" -> "%25;22" [] t = " " -> "%25;20" [] t = "<" -> "%25;3c" [] t = ">" -> "%25;3e"
               [] t = "[" -> "%25;5b" [] t = "]" -> "%25;5d" [] t = "^" -> "%25;5e" [] t = "`" -> "%25;60"
               [] t = "{" -> "%25;7b" [] t = "}" -> "%25;7d" [] OTHER -> t
Escapes == {"25", "22", "20", "3c", "3e", "5b", "5d", "5e", "60", "7b", "7d"}
AlreadyEscaped(u) == \E k \in 1 .. Len(u) - 2 : u[k] = "%25;" /\ (u[k + 1] \o u[k + 2]) \in Escapes
Escape(u) == IF AlreadyEscaped(u) THEN u ELSE [k \in DOMAIN u |-> UrlEsc(u[k])]

\* [err, target, loc, text]; an internal link has no target.
LinkOf(u) ==
    LET hash == Pos(u, "#")
        head(s) == IF Pos(s, "#") = 0 THEN s ELSE SubSeq(s, 1, Pos(s, "#") - 1)
        tail(s) == IF Pos(s, "#") = 0 THEN << >> ELSE Drop(s, Pos(s, "#"))
        L(target, loc, text) ==
            [err |-> IF Len(target) > 2080 \/ Len(loc) > 2080 THEN "MaxUrlLengthExceeded" ELSE "",
             target |-> Join(Escape(target)), loc |-> Join(loc), text |-> text]
    IN IF \E s \in {"http://", "https://", "ftp://", "ftps://"} : StartsWith(u, s)
       THEN L(head(u), tail(u), u)
       ELSE IF StartsWith(u, "mailto:") THEN L(u, << >>, Drop(u, 7))
       ELSE IF StartsWith(u, "internal:")
       THEN [err |-> IF Len(u) > 2080 THEN "MaxUrlLengthExceeded" ELSE "", target |-> "", loc |-> Join(Drop(u, 9)), text |-> Drop(u, 9)]
       ELSE IF StartsWith(u, "file://")
       THEN LET path == IF StartsWith(u, "file:///") THEN Drop(u, 8) ELSE Drop(u, 7)
                absolute == (Len(path) >= 2 /\ path[1] = "%5C;" /\ path[2] = "%5C;")
                            \/ (Len(path) >= 2 /\ path[2] = ":" /\ Pos(path, ":") = 2 /\ Len(path[1]) = 1)   \* one ASCII drive letter
                link == IF absolute THEN u ELSE path
            IN L(head(link), tail(link), path)
       ELSE [err |-> "UnknownUrlType", target |-> "", loc |-> "", text |-> << >>]

\* The single target of a link on an image or shape: the location stays part of it.
HashEsc(u) == [k \in DOMAIN u |-> IF u[k] = "#" THEN "%25;23" ELSE u[k]]
ObjTarget(u) ==
    IF StartsWith(u, "internal:") THEN "#" \o Join(Drop(u, 9))
    ELSE IF StartsWith(u, "file://")
    THEN LET path == IF StartsWith(u, "file:///") THEN Drop(u, 8) ELSE Drop(u, 7)
             absolute == (Len(path) >= 2 /\ path[1] = "%5C;" /\ path[2] = "%5C;")
                         \/ (Len(path) >= 2 /\ path[2] = ":" /\ Pos(path, ":") = 2 /\ Len(path[1]) = 1)
             link == IF absolute THEN u ELSE [k \in DOMAIN path |-> IF path[k] = "%5C;" THEN "/" ELSE path[k]]
         IN Join(HashEsc(Escape(link)))
    ELSE Join(Escape(u))
=============================================================================
