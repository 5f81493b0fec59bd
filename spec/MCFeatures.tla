------------------------------ MODULE MCFeatures ------------------------------
(* Laws of the measures on every small image: ranges, effect of the quarter  *)
(* turn, of the inversion of the colours and of the ink added pixel by pixel.*)
EXTENDS Features

CONSTANT MaxArea
VARIABLE img
Sizes == {<<w, h>> \in (1..MaxArea) \X (1..MaxArea) : w * h <= MaxArea}

\* a drawing is made by adding ink to a blank image
Blank0(w, h) == MkImg(w, h, LAMBDA x, y : Dash)
Init == img \in {Blank0(s[1], s[2]) : s \in Sizes}
AddInk == \E i \in 1..Area(img) : img.p[i] # Ink /\ img' = [img EXCEPT !.p[i] = Ink]
Spec == Init /\ [][AddInk]_img

N == Numbers(img)
InRange == \A k \in 1..20 : N[k] \in 0..Interval[k]
Bars == N[21] \in 0..((img.h + 1) \div 2) /\ N[22] \in 0..((img.w + 1) \div 2)
BlankIsNeutral == InkSet(img) = {} =>
    /\ \A k \in {7, 8, 11, 12, 16, 17, 18, 19} : N[k] = 100       \* no ink on either side
    /\ N[20] = 0 /\ N[21] = 0 /\ N[22] = 0
FullIsBalanced == InkSet(img) = 1..Area(img) =>
    N[20] = 100 /\ N[21] = 1 /\ N[22] = 1 /\ N[9] = 50 /\ N[13] = 50
\* turned upside down, the share of the top becomes that of the bottom
UpsideDown == Rotate90(Rotate90(img))
Mirror == LET u == UpsideDown
          IN  /\ HDirection(img) + HDirection(u) \in 199..200
              /\ HDirection2(img) + HDirection2(u) \in 99..100
              /\ HGravity2(img) + HGravity2(u) \in 99..100
              /\ HBar(u) = HBar(img)
Alts == \A k \in 1..7 :
          LET a == Alternations(img)[k] IN a[1] \in {0, 1} /\ a[2] \in 0..Max2(img.w, img.h)
ZoneLaws ==
    LET z == ZoneFeature(img)
        free == Area(img) - Cardinality(InkSet(img))
    IN  /\ z[1] \in {0, 1} /\ z[2] \in {0, 1}
        /\ \A k \in 3..7 : z[k] \in 0..free
        /\ z[3] <= (img.w + 1) \div 2 /\ z[4] <= (img.h + 1) \div 2
SharesLaw == LET s == PropZone(img)
             IN  (\A i \in 1..Len(s) : s[i] \in 0..100) /\ IsSortedBy(s, <=)
                 /\ SumSeq(s) \in (IF s = <<>> THEN {0} ELSE (101 - Len(s))..100)
\* more ink: density never decreases
Denser == [][Density(img') >= Density(img) /\ DTopInk(img') >= DTopInk(img)]_img
=============================================================================
