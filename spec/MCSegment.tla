------------------------------ MODULE MCSegment ------------------------------
(* The loop of every program which cuts an image: the next box is looked for *)
(* from the right edge of the previous one.  NextBox is the step; the        *)
(* invariants say what the cut is without the steps.                         *)
EXTENDS Segment

CONSTANT MaxArea
VARIABLES img, from, found, done
Sizes == {<<w, h>> \in (1..MaxArea) \X (1..MaxArea) : w * h <= MaxArea}
Images == UNION {{[w |-> s[1], h |-> s[2], p |-> p] : p \in [1..(s[1] * s[2]) -> {Ink, Dash}]} : s \in Sizes}

Init == img \in Images /\ from = 0 /\ found = <<>> /\ done = FALSE
CutNext == /\ ~done
           /\ LET bx == NextBox(img, from)
              IN  IF bx = NoBox THEN done' = TRUE /\ UNCHANGED <<from, found>>
                  ELSE /\ found' = Append(found, bx)
                       /\ from' = bx[1] + bx[3]
                       /\ done' = FALSE
           /\ UNCHANGED img
Spec == Init /\ [][CutNext]_<<img, from, found, done>> /\ WF_<<img, from, found, done>>(CutNext)

Progress    == Len(found) <= img.w /\ from <= img.w
SoFar       == Inside(img, found) /\ Ordered(found) /\ \A k \in 1..Len(found) : IsTight(img, found[k])
\* S01
AllTheInk   == done => Geometry(img, found)
\* S02
NeverInside == done => CutOnlyBetween(img, found)
SameAsBoxes == done => found = Boxes(img)
\* 8-connected ink is never shared between two boxes
Touch(i, j) == LET xi == (i - 1) % img.w
                   yi == (i - 1) \div img.w
                   xj == (j - 1) % img.w
                   yj == (j - 1) \div img.w
               IN  Abs(xi - xj) <= 1 /\ Abs(yi - yj) <= 1
NotSplit == done => \A i, j \in InkSet(img) : Touch(i, j) =>
                \E k \in 1..Len(found) : InBox(found[k], (i - 1) % img.w, (i - 1) \div img.w)
                                      /\ InBox(found[k], (j - 1) % img.w, (j - 1) \div img.w)
Terminates == <>done
=============================================================================
