--------------------------------- MODULE Scan ---------------------------------
(* Reading a file byte by byte: what a reader may take of it when it may be  *)
(* cut or damaged anywhere.  A reader is an operator on the bytes b and a    *)
(* position i, which gives [ok, v, next].                                    *)
EXTENDS Text

Bad == [ok |-> FALSE, v |-> <<>>, next |-> 0]
Got(v, next) == [ok |-> TRUE, v |-> v, next |-> next]

IsDigit(c) == c \in 48..57
Kind(k, c) == CASE k = "blanks" -> IsBlank(c)
                [] k = "zeros"  -> c = 48
                [] k = "digits" -> IsDigit(c)
                [] k = "token"  -> ~IsBlank(c)
                [] k = "line"   -> c # 10
\* the first position from i on where the bytes are not of this kind any more
RECURSIVE After(_, _, _)
After(b, i, k) == IF i > Len(b) THEN i
                  ELSE IF i + 63 <= Len(b) /\ \A j \in i..(i + 63) : Kind(k, b[j]) THEN After(b, i + 64, k)
                  ELSE IF Kind(k, b[i]) THEN After(b, i + 1, k) ELSE i
Ended(b, i) == After(b, i, "blanks") > Len(b)

\* a number which fits in 32 bits; those over 10^9 are -1
Num32(b, i) ==
    LET s == After(b, i, "blanks")
        e == After(b, s, "digits")
        t == SubSeq(b, After(SubSeq(b, 1, e - 1), s, "zeros"), e - 1)
    IN  IF e = s THEN Bad
        ELSE IF Len(t) > 10 \/ (Len(t) = 10 /\ LtSeq(Unknown32, t)) THEN Bad
        ELSE Got(IF Len(t) = 10 THEN -1 ELSE ToNum(t), e)
Token(b, i) ==
    LET s == After(b, i, "blanks")
        e == After(b, s, "token")
    IN  IF e = s THEN Bad ELSE Got(SubSeq(b, s, e - 1), e)
\* what is left of the line, with its end when it is there
RestOfLine(b, i) ==
    LET e == After(b, i, "line") IN IF i > Len(b) THEN Bad ELSE Got(SubSeq(b, i, e - 1), e + 1)

\* n things, one after the other
Times(b, n, i, R(_)) ==
    IF n < 0 \/ n > Len(b) THEN Bad
    ELSE FoldLeft(LAMBDA acc, k : IF ~acc.ok THEN acc
                                  ELSE LET r == R(acc.next) IN IF r.ok THEN Got(Append(acc.v, r.v), r.next) ELSE Bad,
                  Got(<<>>, i), [k \in 1..n |-> k])
=============================================================================
