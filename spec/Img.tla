--------------------------------- MODULE Img ---------------------------------
(* Images: what the system calls an image is a width, a height and one      *)
(* pixel per cell, row by row.  A pixel is the code of a character; the     *)
(* letter ('x') is Ink, everything else is background.                      *)
EXTENDS Util

Ink  == 120     \* 'x'
Dash == 45      \* '-'

Pix(img, x, y)   == img.p[y * img.w + x + 1]
IsInk(img, x, y) == Pix(img, x, y) = Ink
Area(img)        == img.w * img.h
WellFormed(img)  == Len(img.p) = Area(img)

MkImg(w, h, f(_, _)) ==
    [w |-> w, h |-> h, p |-> [i \in 1..(w * h) |-> f((i - 1) % w, (i - 1) \div w)]]

\* quarter turn: the last column becomes the first row
Rotate90(img) == MkImg(img.h, img.w, LAMBDA x, y : Pix(img, img.w - 1 - y, x))

Section(img, x0, y0, w, h) == MkImg(w, h, LAMBDA x, y : Pix(img, x0 + x, y0 + y))

\* total order: width, height, then pixels (as unsigned or signed characters:
\* they are all ASCII)
ImgCmp(a, b) ==
    IF a.w # b.w THEN (IF a.w < b.w THEN -1 ELSE 1)
    ELSE IF a.h # b.h THEN (IF a.h < b.h THEN -1 ELSE 1)
    ELSE CmpSeq(a.p, b.p)
ImgLt(a, b) == ImgCmp(a, b) < 0

\* text drawing: a frame of ':' around the rows, each line ends with NL (10)
Colon == 58
NL    == 10
Draw(img) ==
    LET n == img.w + 3
        cell(x, y) == CASE x = n - 1 -> NL
                        [] x \in {0, n - 2} \/ y \in {0, img.h + 1} -> Colon
                        [] OTHER -> Pix(img, x - 1, y - 1)
    IN  [i \in 1..(n * (img.h + 2)) |-> cell((i - 1) % n, (i - 1) \div n)]

InkSet(img) == {i \in 1..Area(img) : img.p[i] = Ink}
=============================================================================
