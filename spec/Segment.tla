------------------------------- MODULE Segment -------------------------------
(* Cutting an image of a line of text into the boxes of its characters.      *)
(* A box is <<x, y, w, h>>.                                                   *)
EXTENDS Img

ColInk(img, c) == \E y \in 0..(img.h - 1) : IsInk(img, c, y)
\* some ink of column c touches some ink of column c+1 (8-neighbours)
Joined(img, c) ==
    \E y \in 0..(img.h - 1) :
        IsInk(img, c, y) /\ \E yy \in Max2(0, y - 1)..Min2(img.h - 1, y + 1) : IsInk(img, c + 1, yy)

\* trimming: rows holding ink in the columns c0 .. c1
RowHasInk(img, c0, c1, y) == \E c \in c0..c1 : IsInk(img, c, y)
Tight(img, c0, c1) ==
    LET rows == {y \in 0..(img.h - 1) : RowHasInk(img, c0, c1, y)}
    IN  <<c0, Min(rows), c1 - c0 + 1, Max(rows) - Min(rows) + 1>>

\* last column of the character which starts at column c
RECURSIVE LastCol(_, _)
LastCol(img, c) == IF c + 1 < img.w /\ Joined(img, c) THEN LastCol(img, c + 1) ELSE c

RECURSIVE FirstInkCol(_, _)
FirstInkCol(img, c) == IF c >= img.w THEN c ELSE IF ColInk(img, c) THEN c ELSE FirstInkCol(img, c + 1)

NoBox == <<0, 0, 0, 0>>
\* the next character from column c; NoBox when there is none
NextBox(img, c) ==
    LET x == FirstInkCol(img, c)
    IN  IF x >= img.w THEN NoBox ELSE Tight(img, x, LastCol(img, x))

RECURSIVE BoxesFrom(_, _)
BoxesFrom(img, c) ==
    LET b == NextBox(img, c)
    IN  IF b = NoBox THEN <<>> ELSE <<b>> \o BoxesFrom(img, b[1] + b[3])
Boxes(img) == BoxesFrom(img, 0)

-----------------------------------------------------------------------------
(* what is asked of a cut, said without the algorithm                        *)
InBox(b, x, y) == x >= b[1] /\ x < b[1] + b[3] /\ y >= b[2] /\ y < b[2] + b[4]
Covers(img, bs) ==       \* all the ink is in a box...
    \A i \in InkSet(img) : \E k \in 1..Len(bs) : InBox(bs[k], (i - 1) % img.w, (i - 1) \div img.w)
Ordered(bs) ==           \* ...boxes go from left to right and share no column
    \A k \in 1..(Len(bs) - 1) : bs[k][1] + bs[k][3] <= bs[k + 1][1]
Inside(img, bs) ==
    \A k \in 1..Len(bs) : /\ bs[k][3] >= 1 /\ bs[k][4] >= 1
                          /\ bs[k][1] + bs[k][3] <= img.w /\ bs[k][2] + bs[k][4] <= img.h
IsTight(img, b) ==
    /\ \E y \in b[2]..(b[2] + b[4] - 1) : IsInk(img, b[1], y)
    /\ \E y \in b[2]..(b[2] + b[4] - 1) : IsInk(img, b[1] + b[3] - 1, y)
    /\ \E x \in b[1]..(b[1] + b[3] - 1) : IsInk(img, x, b[2])
    /\ \E x \in b[1]..(b[1] + b[3] - 1) : IsInk(img, x, b[2] + b[4] - 1)
Geometry(img, bs) ==
    Inside(img, bs) /\ Ordered(bs) /\ (\A k \in 1..Len(bs) : IsTight(img, bs[k])) /\ Covers(img, bs)

\* ink which touches (8-neighbours) is never in two boxes, and a box is never wider than
\* columns joined one to the next
CutOnlyBetween(img, bs) ==
    \A c \in 0..(img.w - 2) :
        Joined(img, c) <=> \E k \in 1..Len(bs) : bs[k][1] <= c /\ c + 1 < bs[k][1] + bs[k][3]
=============================================================================
