------------------------------ MODULE Formulas ------------------------------
(* Formula text as it is stored.  Functions that the original file format    *)
(* did not have carry a prefix.  A formula is a sequence of characters (in   *)
(* their encoded form).                                                      *)
EXTENDS Links

FutureFn == {"ACOTH", "ACOT", "AGGREGATE", "ARABIC", "ARRAYTOTEXT", "BASE", "BETA.DIST", "BETA.INV", "BINOM.DIST.RANGE", "BINOM.DIST", 
        "BINOM.INV", "BITAND", "BITLSHIFT", "BITOR", "BITRSHIFT", "BITXOR", "CEILING.MATH", "CEILING.PRECISE", "CHISQ.DIST.RT", 
        "CHISQ.DIST", "CHISQ.INV.RT", "CHISQ.INV", "CHISQ.TEST", "COMBINA", "CONCAT", "CONFIDENCE.NORM", "CONFIDENCE.T", "COTH", "COT", 
        "COVARIANCE.P", "COVARIANCE.S", "CSCH", "CSC", "DAYS", "DECIMAL", "ERF.PRECISE", "ERFC.PRECISE", "EXPON.DIST", "F.DIST.RT", 
        "F.DIST", "F.INV.RT", "F.INV", "F.TEST", "FIELDVALUE", "FILTERXML", "FLOOR.MATH", "FLOOR.PRECISE", "FORECAST.ETS.CONFINT", 
        "FORECAST.ETS.SEASONALITY", "FORECAST.ETS.STAT", "FORECAST.ETS", "FORECAST.LINEAR", "FORMULATEXT", "GAMMA.DIST", "GAMMA.INV", 
        "GAMMALN.PRECISE", "GAMMA", "GAUSS", "HYPGEOM.DIST", "IFNA", "IFS", "IMAGE", "IMCOSH", "IMCOT", "IMCSCH", "IMCSC", "IMSECH", 
        "IMSEC", "IMSINH", "IMTAN", "ISFORMULA", "ISOMITTED", "ISOWEEKNUM", "LET", "LOGNORM.DIST", "LOGNORM.INV", "MAXIFS", "MINIFS", 
        "MODE.MULT", "MODE.SNGL", "MUNIT", "NEGBINOM.DIST", "NORM.DIST", "NORM.INV", "NORM.S.DIST", "NORM.S.INV", "NUMBERVALUE", 
        "PDURATION", "PERCENTILE.EXC", "PERCENTILE.INC", "PERCENTRANK.EXC", "PERCENTRANK.INC", "PERMUTATIONA", "PHI", "POISSON.DIST", 
        "PQSOURCE", "QUARTILE.EXC", "QUARTILE.INC", "QUERYSTRING", "RANK.AVG", "RANK.EQ", "RRI", "SECH", "SEC", "SHEETS", "SHEET", 
        "SKEW.P", "STDEV.P", "STDEV.S", "T.DIST.2T", "T.DIST.RT", "T.DIST", "T.INV.2T", "T.INV", "T.TEST", "TEXTAFTER", "TEXTBEFORE", 
        "TEXTJOIN", "UNICHAR", "UNICODE", "VALUETOTEXT", "VAR.P", "VAR.S", "WEBSERVICE", "WEIBULL.DIST", "XMATCH", "XOR", "Z.TEST", 
        "ANCHORARRAY", "BYCOL", "BYROW", "CHOOSECOLS", "CHOOSEROWS", "DROP", "EXPAND", "HSTACK", "LAMBDA", "MAKEARRAY", "MAP", 
        "RANDARRAY", "REDUCE", "SCAN", "SINGLE", "SEQUENCE", "SORTBY", "SWITCH", "TAKE", "TEXTSPLIT", "TOCOL", "TOROW", "UNIQUE", 
        "VSTACK", "WRAPCOLS", "WRAPROWS", "XLOOKUP"}
\* These carry a second prefix.
WorksheetFn == {"FILTER", "PY", "SORT"}
\* These return arrays.
DynamicFn == {"BYCOL", "BYROW", "CHOOSECOLS", "CHOOSEROWS", "DROP", "EXPAND", "HSTACK", "LAMBDA", "MAKEARRAY", "MAP", "RANDARRAY", "REDUCE", 
        "SCAN", "SEQUENCE", "SORTBY", "SWITCH", "TAKE", "TEXTSPLIT", "TOCOL", "TOROW", "UNIQUE", "VSTACK", "WRAPCOLS", "WRAPROWS", 
        "XLOOKUP", "SINGLE", "ANCHORARRAY", "FILTER", "PY", "SORT"}

FnLetters == Range(Tok("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789._")) \cup {"%5C;", "%E9;", "%C9;", "%4E2D;"}

\* An array formula may be given in braces and any formula with an equals sign.
Body(cs) ==
    LET brace == cs # << >> /\ cs[1] = "{"
        a == IF brace THEN Tail(cs) ELSE cs
        b == IF brace /\ a # << >> /\ a[Len(a)] = "}" THEN SubSeq(a, 1, Len(a) - 1) ELSE a
    IN IF b # << >> /\ b[1] = "=" THEN Tail(b) ELSE b
Contains(cs, s) == \E k \in 0 .. Len(cs) - Len(s) : SubSeq(cs, k + 1, k + Len(s)) = s

\* One pass over the characters: out is the stored text, name the name being
\* read, q the quote the text is in, br the depth of brackets.
Prefix(name) == IF name \in WorksheetFn THEN "_xlfn._xlws." ELSE IF name \in FutureFn THEN "_xlfn." ELSE ""
ScanInit == [out |-> "", name |-> "", q |-> "", br |-> 0, esc |-> FALSE, dyn |-> FALSE]
Scan(escape, w, ch) ==
    LET lit == w.q # "" \/ w.br > 0 \/ w.esc \/ ch \in {"%22;", "'", "[", "]"}
        call == ~lit /\ ch = "("
        pre == IF call /\ escape THEN Prefix(w.name) ELSE ""
        flush == [w EXCEPT !.out = @ \o pre \o w.name \o ch, !.name = "", !.dyn = @ \/ (call /\ w.name \in DynamicFn)]
    IN IF lit
       THEN LET f == flush IN
            IF w.q # "" THEN [f EXCEPT !.q = IF ch = @ THEN "" ELSE @]
            ELSE IF w.esc THEN [f EXCEPT !.esc = FALSE]
            ELSE IF ch = "[" THEN [f EXCEPT !.br = @ + 1]
            ELSE IF ch = "]" THEN [f EXCEPT !.br = IF @ = 0 THEN 0 ELSE @ - 1]
            ELSE IF ch = "'" /\ w.br > 0 THEN [f EXCEPT !.esc = TRUE]
            ELSE IF w.br = 0 THEN [f EXCEPT !.q = ch]
            ELSE f
       ELSE IF ch \in FnLetters THEN [w EXCEPT !.name = @ \o ch]
       ELSE flush
\* <<stored text, returns arrays>>.  A formula with prefixes is stored as it is.
Stored(cs) ==
    LET b == Body(cs) IN
    IF Contains(b, Tok("_xlfn."))
    THEN LET strip(n) == IF Len(n) > 12 /\ SubSeq(n, 1, 12) = "_xlfn._xlws." THEN SubSeq(n, 13, Len(n))
                         ELSE IF Len(n) > 6 /\ SubSeq(n, 1, 6) = "_xlfn." THEN SubSeq(n, 7, Len(n)) ELSE n
             step(w, ch) == IF ch \in FnLetters THEN Scan(FALSE, w, ch) ELSE Scan(FALSE, [w EXCEPT !.name = strip(@)], ch)
         IN <<Join(b), FoldL(step, ScanInit, b).dyn>>
    ELSE LET w == FoldL(LAMBDA a, ch : Scan(TRUE, a, ch), ScanInit, b) IN <<w.out \o w.name, w.dyn>>
=============================================================================
