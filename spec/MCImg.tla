-------------------------------- MODULE MCImg --------------------------------
(* Laws of the elementary operations, on every pair of small images.         *)
EXTENDS Img

CONSTANT MaxArea
VARIABLES a, b, turns      \* two images; quarter turns given to a
Sizes == {<<w, h>> \in (1..MaxArea) \X (1..MaxArea) : w * h <= MaxArea}
Images == UNION {{[w |-> s[1], h |-> s[2], p |-> p] : p \in [1..(s[1] * s[2]) -> {Ink, Dash}]} : s \in Sizes}

Init == a \in Images /\ b \in Images /\ turns = 0
Next == turns < 4 /\ turns' = turns + 1 /\ a' = Rotate90(a) /\ b' = b
Spec == Init /\ [][Next]_<<a, b, turns>>

OrderIsTotal ==
    /\ (ImgCmp(a, b) = 0) = (a = b)
    /\ ImgCmp(a, b) = -ImgCmp(b, a)
Transitive == turns = 0 => \A c \in {b, Rotate90(a), Rotate90(b)} :
                 ImgLt(a, b) /\ ImgLt(b, c) => ImgLt(a, c)
TurnKeepsInk == Cardinality(InkSet(Rotate90(a))) = Cardinality(InkSet(a))
FourTurns == Rotate90(Rotate90(Rotate90(Rotate90(a)))) = a
LastColumnFirst == \A i \in 1..a.h : Rotate90(a).p[i] = Pix(a, a.w - 1, i - 1)
SectionOfAll == Section(a, 0, 0, a.w, a.h) = a
SectionOfSection ==
    \A x \in 0..(a.w - 1), y \in 0..(a.h - 1) :
        LET s == Section(a, x, y, a.w - x, a.h - y)
        IN  WellFormed(s) /\ Section(s, 0, 0, 1, 1).p = <<Pix(a, x, y)>>
DrawIsFramed == Len(Draw(a)) = (a.w + 3) * (a.h + 2)
=============================================================================
