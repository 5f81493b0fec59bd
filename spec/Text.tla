--------------------------------- MODULE Text ---------------------------------
(* Blank-separated texts: the files of the system are sequences of tokens.   *)
EXTENDS Util

IsBlank(c) == c \in {32, 9, 10, 11, 12, 13}
\* the parts of b between the positions where Sep holds
Split(b, Sep(_)) ==
    LET pos == <<0>> \o SelectSeq([i \in 1..Len(b) |-> i], LAMBDA i : Sep(b[i])) \o <<Len(b) + 1>>
    IN  [k \in 1..(Len(pos) - 1) |-> SubSeq(b, pos[k] + 1, pos[k + 1] - 1)]
Tokens(b) == SelectSeq(Split(b, IsBlank), LAMBDA t : t # <<>>)
\* lines, without their end
Lines(b) == LET s == Split(b, LAMBDA c : c = 10)
            IN  IF s[Len(s)] = <<>> THEN SubSeq(s, 1, Len(s) - 1) ELSE s

\* a number of the files; the one which stands for "no line information" does not fit
Unknown32 == <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>      \* 4294967295
ToNum(t) == IF t = Unknown32 THEN -1 ELSE FoldLeft(LAMBDA n, c : n * 10 + (c - 48), 0, t)
IsNum(t) == t # <<>> /\ (t = Unknown32 \/ Len(t) <= 9) /\ \A i \in 1..Len(t) : t[i] \in 48..57
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
NumText(n) == IF n = -1 THEN Unknown32 ELSE Digits(n)
=============================================================================
