------------------------------- MODULE Assemble -------------------------------
(* The text of a line: L is the sequence of the candidate lists <<word,      *)
(* font>>, gaps the set of the characters (from 1) which follow a gap.       *)
EXTENDS Spell

PunctChars == {33, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 58, 59, 60, 61, 62, 63, 91, 93, 123, 125}
Punct(w) == Len(w) = 1 /\ w[1] \in PunctChars
\* a character which stops a word
Stop(l) == l = <<>> \/ Punct(l[1][1])

\* last character of the word which begins at i: before a stop, a gap or the end
RECURSIVE WordEnd(_, _, _)
WordEnd(L, gaps, i) ==
    IF i + 1 > Len(L) \/ (i + 1) \in gaps \/ Stop(L[i + 1]) THEN i ELSE WordEnd(L, gaps, i + 1)
WordText(D, L, i, j) ==
    LET pos == [k \in 1..(j - i + 1) |-> [m \in 1..Len(L[i + k - 1]) |-> L[i + k - 1][m][1]]]
        w   == PickRead(D, pos)
    IN  IF w # NoWord THEN w ELSE Flatten([k \in 1..Len(pos) |-> pos[k][1]])

Question == <<63>>
Space    == <<32>>
RECURSIVE TextFrom(_, _, _, _)
TextFrom(D, L, gaps, i) ==
    IF i > Len(L) THEN <<>>
    ELSE LET gap == IF i # 1 /\ i \in gaps THEN Space ELSE <<>>
         IN  gap \o
             IF L[i] = <<>> THEN Question \o TextFrom(D, L, gaps, i + 1)
             ELSE IF Stop(L[i]) THEN L[i][1][1] \o TextFrom(D, L, gaps, i + 1)
             ELSE LET j == WordEnd(L, gaps, i)
                  IN  WordText(D, L, i, j) \o TextFrom(D, L, gaps, j + 1)
LineText(D, L, gaps) == TextFrom(D, L, gaps, 1)
Unrecognized(L) == Cardinality({i \in 1..Len(L) : L[i] = <<>>})
=============================================================================
