-------------------------------- MODULE Util --------------------------------
(* Small helpers shared by the modules of the specification.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a)     == IF a >= 0 THEN a ELSE -a
CeilDiv(a, b) == (a + b - 1) \div b          \* b > 0 (\div rounds to -oo)

Add(a, b) == a + b
\* f(1) + ... + f(n)
Sum(n, f(_)) == FoldFunction(Add, 0, [i \in 1..n |-> f(i)])
SumSeq(s)    == FoldFunction(Add, 0, s)

IsSortedBy(s, Le(_, _)) == \A i \in 1..(Len(s) - 1) : Le(s[i], s[i + 1])

\* comparison of two sequences of integers: -1, 0, 1 (a prefix is smaller)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
    ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] < b[i] THEN -1
    ELSE IF a[i] > b[i] THEN 1
    \* long ones: as many as are equal at once
    ELSE IF i % 500 = 1 /\ i + 499 <= Len(a) /\ i + 499 <= Len(b) /\ SubSeq(a, i, i + 499) = SubSeq(b, i, i + 499)
    THEN CmpFrom(a, b, i + 500)
    ELSE CmpFrom(a, b, i + 1)
CmpSeq(a, b) == CmpFrom(a, b, 1)
LtSeq(a, b)  == CmpSeq(a, b) < 0

\* the sequence of the elements of a set of integers, increasing
SortedInts(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

\* two sequences with the same elements, as often
SameBag(a, b) == Len(a) = Len(b)
    /\ \A i \in 1..Len(a) :
          Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})

Flatten(ss) == FlattenSeq(ss)
=============================================================================
