------------------------------- MODULE Reindex -------------------------------
(* Putting the elements of a list in another order: at the place i, the one   *)
(* which was at the place the i-th index names (indexes from 0).              *)
EXTENDS Util
Orders(n) == {p \in [1..n -> 0..(n - 1)] : \A i, k \in 1..n : p[i] = p[k] => i = k}
Reordered(idx, s) == [i \in 1..Len(idx) |-> s[idx[i] + 1]]
\* the order which undoes idx
Undo(idx) == [i \in 1..Len(idx) |-> (CHOOSE k \in 1..Len(idx) : idx[k] = i - 1) - 1]
\* the order given by a rule: the i-th (from 0) is m * i + s modulo n, m and n without common factor
ByStep(n, m, s, i) == ((((m % n) * i) % n) + s) % n
=============================================================================
