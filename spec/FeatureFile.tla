----------------------------- MODULE FeatureFile -----------------------------
(* Files of features: the number of rows, then each column on its line; the  *)
(* value of a row in a column is one number, seven pairs (alternations),     *)
(* seven numbers (zones), or a count and as many numbers (shares).           *)
EXTENDS Features

Shares(v) == <<Len(v)>> \o v
FileLines(rows) ==
    LET line(f(_)) == Flatten([i \in 1..Len(rows) |-> f(rows[i])])
    IN  <<<<Len(rows)>>>>
        \o [k \in 1..22 |-> line(LAMBDA r : <<r.n[k]>>)]
        \o << line(LAMBDA r : r.a), line(LAMBDA r : r.z), line(LAMBDA r : Shares(r.pz)) >>

(* Reading: the rows which the numbers of the lines stand for.               *)
RECURSIVE SharesAt(_, _, _)
\* the shares of n rows, from position i of the line
SharesAt(l, n, i) ==
    IF n = 0 THEN <<>>
    ELSE <<SubSeq(l, i + 1, i + l[i])>> \o SharesAt(l, n - 1, i + l[i] + 1)
RowsOf(ls) ==
    LET n  == ls[1][1]
        sh == SharesAt(ls[26], n, 1)
    IN  [i \in 1..n |->
            [n  |-> [k \in 1..22 |-> ls[k + 1][i]],
             a  |-> SubSeq(ls[24], 14 * i - 13, 14 * i),
             z  |-> SubSeq(ls[25], 7 * i - 6, 7 * i),
             pz |-> sh[i]]]
=============================================================================
