--------------------------------- MODULE Pnm ---------------------------------
(* The image files the system reads: PNM, types 1 and 3 (ASCII, at most two  *)
(* values), 4 (one bit per pixel) and 6 (three bytes per pixel, compared to  *)
(* a luminance).  A file is a sequence of bytes.  Decode is what a reader    *)
(* does, Encodes is what a writer may produce.                               *)
EXTENDS Img

Digit(c) == c \in 48..57
Blank(c) == c = 32 \/ c = 10
Refused == [ok |-> FALSE]
\* more pixels than any file examined can hold
TooMany == 100000000

RECURSIVE AfterLine(_, _)
AfterLine(b, i) == IF i > Len(b) THEN i ELSE IF b[i] = 10 THEN i + 1 ELSE AfterLine(b, i + 1)
RECURSIVE AfterComments(_, _)
AfterComments(b, i) == IF i <= Len(b) /\ b[i] = 35 THEN AfterComments(b, AfterLine(b, i)) ELSE i

\* first position from i which does not hold a digit / a zero
RECURSIVE AfterDigits(_, _)
AfterDigits(b, i) == IF i <= Len(b) /\ Digit(b[i]) THEN AfterDigits(b, i + 1) ELSE i
RECURSIVE AfterZeros(_, _)
AfterZeros(b, i) == IF i <= Len(b) /\ b[i] = 48 THEN AfterZeros(b, i + 1) ELSE i

Decimal(b, i, j) ==      \* value of the digits b[i] .. b[j-1], at most 9
    FoldLeft(LAMBDA n, c : n * 10 + (c - 48), 0, SubSeq(b, i, j - 1))

\* a number followed by the character sep: [ok, v, next]; numbers of 10 digits or
\* more are only known to be too big
Number(b, i, sep) ==
    LET j == AfterDigits(b, i)
        z == AfterZeros(b, i)
    IN  IF j = i \/ j > Len(b) THEN Refused
        ELSE IF b[j] # sep THEN Refused
        ELSE [ok |-> TRUE, next |-> j + 1, v |-> IF j - z > 9 THEN TooMany ELSE Decimal(b, Min2(z, j), j)]

Header(b) ==
    IF Len(b) < 3 THEN Refused
    ELSE IF b[1] # 80 \/ b[2] \notin 49..54 \/ b[3] # 10 THEN Refused
    ELSE LET w == Number(b, AfterComments(b, 4), 32) IN
         IF ~w.ok THEN Refused
         ELSE LET h == Number(b, w.next, 10) IN
              IF ~h.ok THEN Refused
              ELSE IF b[2] \in {49, 52}
                   THEN [ok |-> TRUE, type |-> b[2] - 48, w |-> w.v, h |-> h.v, next |-> h.next]
                   ELSE LET m == Number(b, h.next, 10) IN
                        IF ~m.ok THEN Refused
                        ELSE [ok |-> TRUE, type |-> b[2] - 48, w |-> w.v, h |-> h.v, next |-> m.next]

Luminance(r, g, b) ==
    ((511 * r + 511) \div 1024) + ((396 * g + 511) \div 1024) + ((117 * b + 511) \div 1024)

Bit(v, n) == (v \div (2 ^ (7 - n))) % 2      \* n = 0 is the highest
RowBytes(w) == CeilDiv(w, 8)

Data(b, hd, lum) ==
    LET w == hd.w
        h == hd.h
        n == w * h
        rest == Len(b) - hd.next + 1
        byteAt(k) == b[hd.next + k]                     \* k-th byte of the data, from 0
        img(f(_, _)) == [ok |-> TRUE, w |-> w, h |-> h,
                         p |-> [i \in 1..n |-> IF f((i - 1) % w, (i - 1) \div w) THEN Ink ELSE Dash]]
    IN  CASE hd.type = 6 ->
               IF rest # 3 * n THEN Refused
               ELSE img(LAMBDA x, y : LET k == 3 * (y * w + x)
                                      IN  Luminance(byteAt(k), byteAt(k + 1), byteAt(k + 2)) >= lum)
          [] hd.type = 4 ->
               IF rest # RowBytes(w) * h THEN Refused
               ELSE img(LAMBDA x, y : Bit(byteAt(y * RowBytes(w) + x \div 8), x % 8) = 0)
          [] hd.type \in {1, 3} ->
               LET digits == SelectSeq(SubSeq(b, hd.next, Len(b)), LAMBDA c : ~Blank(c))
               IN  IF Len(digits) # n \/ \E i \in 1..Len(digits) : digits[i] \notin {48, 49} THEN Refused
                   ELSE img(LAMBDA x, y : digits[y * w + x + 1] = 49)
          [] OTHER -> Refused

Decode(b, lum) ==
    LET hd == Header(b)
    IN  IF ~hd.ok THEN Refused
        ELSE IF hd.w = 0 \/ hd.h = 0 THEN Refused
        ELSE IF hd.h > TooMany \div hd.w THEN Refused     \* w * h > TooMany
        ELSE Data(b, hd, lum)

-----------------------------------------------------------------------------
(* writing: the files which stand for an image, seen as black and white      *)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + n \div 10, 48 + (n % 10)>>
          ELSE <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
HeaderOf(type, comments, img) ==
    <<80, 48 + type, 10>> \o comments \o Dec(img.w) \o <<32>> \o Dec(img.h) \o <<10>>
    \o (IF type \in {1, 4} THEN <<>> ELSE IF type = 3 THEN <<49, 10>> ELSE Dec(255) \o <<10>>)

\* dark and light are colours under and over the luminance
Body(type, img, dark, light) ==
    CASE type = 6 -> Flatten([i \in 1..Area(img) |-> IF img.p[i] = Ink THEN light ELSE dark])
      [] type = 4 -> Flatten([y \in 1..img.h |-> [k \in 1..RowBytes(img.w) |->
                        Sum(8, LAMBDA n : LET x == (k - 1) * 8 + n - 1
                                          IN  IF x < img.w /\ ~IsInk(img, x, y - 1)
                                              THEN 2 ^ (8 - n) ELSE 0)]])
      [] OTHER    -> [i \in 1..Area(img) |-> IF img.p[i] = Ink THEN 49 ELSE 48]
Encode(type, comments, img, dark, light) == HeaderOf(type, comments, img) \o Body(type, img, dark, light)
=============================================================================
