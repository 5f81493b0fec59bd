------------------------------ MODULE MCDistance ------------------------------
(* Laws of the closeness of two values, on every pair of values (of shares:  *)
(* on short lists of a few values).                                          *)
EXTENDS Distance
CONSTANTS MaxLen, ShareValues, Step
VARIABLES col, a, b
Values(k) ==
    IF k <= NumSimple THEN {v \in 0..Interval[k] : v % Step = 0 \/ v = Interval[k]}
    ELSE IF k <= 22 THEN 0..3
    ELSE IF k = 23 THEN {[i \in 1..14 |-> IF i % 2 = 1 THEN s ELSE IF i <= 2 * n THEN 1 ELSE 2] : s \in {0, 1}, n \in 0..7}
    ELSE IF k = 24 THEN {[i \in 1..7 |-> IF i <= n THEN 0 ELSE m] : n \in 0..7, m \in {1, 2}}
    ELSE UNION {[1..n -> ShareValues] : n \in 0..MaxLen}
Init == col \in {1, 7, 21, 23, 24, 25} /\ a \in Values(col) /\ b \in Values(col)
Spec == Init /\ [][FALSE]_<<col, a, b>>

C == Close(col, a, b)
InRange   == C \in 0..100
Reflexive == a = b => C = 100
\* for the shares, up to rounding (of each share, then of their mean)
Symmetric == Abs(C - Close(col, b, a)) <= IF col = 25 THEN 2 ELSE 0
\* the test with a limit agrees with the closeness: it is monotonic in it
TestAgrees == IF col <= NumSimple
              THEN \A d \in {0, 1, Interval[col] \div 10, 50} :
                      /\ Test(col, a, b, d) = Test(col, b, a, d)
                      /\ Test(col, a, b, d) => (C * Interval[col] <= 100 * Interval[col] - 100 * d)
              ELSE IF col <= 22 THEN Test(col, a, b, 50) = (C = 100)
              ELSE \A d \in {0, 50, 100} : Test(col, a, b, d) = (C >= d)
=============================================================================
