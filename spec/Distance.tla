------------------------------- MODULE Distance -------------------------------
(* Closeness of two values of a measure, in hundredths, and the tests made   *)
(* on it.  Columns are numbered as in Features.                              *)
EXTENDS Features

CloseInterval(k, a, b) == 100 - (Abs(a - b) * 100) \div Interval[k]
CloseEqual(a, b)       == IF a = b THEN 100 ELSE 0
\* a and b have n items of size sz
CloseItems(n, sz, a, b) ==
    (Cardinality({i \in 1..n : \A j \in 1..sz : a[(i - 1) * sz + j] = b[(i - 1) * sz + j]}) * 100) \div n
CloseAlt(a, b)  == CloseItems(7, 2, a, b)
CloseZone(a, b) == CloseItems(7, 1, a, b)
ClosePropZone(a, b) ==
    IF Len(a) # Len(b) THEN 0
    ELSE IF Len(a) = 0 THEN 100
    ELSE 100 - Abs((Sum(Len(a), LAMBDA i : IF a[i] + b[i] = 0 THEN 50 ELSE (a[i] * 100) \div (a[i] + b[i]))
                    \div Len(a)) - 50)

\* columns 1..20 numbers, 21 and 22 bars, 23 alternations, 24 zone, 25 shares
Close(k, a, b) ==
    IF k <= NumSimple THEN CloseInterval(k, a, b)
    ELSE IF k <= 22 THEN CloseEqual(a, b)
    ELSE IF k = 23 THEN CloseAlt(a, b)
    ELSE IF k = 24 THEN CloseZone(a, b)
    ELSE ClosePropZone(a, b)

\* the test made with a limit d: "too far" for the numbers of the first group, "equal" for
\* the bars, "close enough" for the others
Test(k, a, b, d) ==
    IF k <= NumSimple THEN Abs(a - b) > d
    ELSE IF k <= 22 THEN a = b
    ELSE Close(k, a, b) >= d
Count(k) == IF k <= NumSimple THEN Interval[k] + 1 ELSE IF k <= 22 THEN 2 ELSE 101
=============================================================================
