-------------------------------- MODULE MCZone --------------------------------
(* Areas of background found by filling: the machine takes any background    *)
(* pixel not yet coloured, and spreads its colour from any coloured pixel to *)
(* any neighbour, in any order.  Whatever the order, the colours are the     *)
(* areas, and the row after row method finds the same.                       *)
EXTENDS Features

CONSTANTS MaxArea, MinArea
VARIABLES img, colour, fresh      \* colour[i] = 0: none; next colour
Sizes == {<<w, h>> \in (1..MaxArea) \X (1..MaxArea) : w * h <= MaxArea /\ w * h >= MinArea}
Images == UNION {{[w |-> s[1], h |-> s[2], p |-> p] : p \in [1..(s[1] * s[2]) -> {Ink, Dash}]} : s \in Sizes}
Cells == 1..Area(img)
Bg == {i \in Cells : img.p[i] # Ink}

Init == img \in Images /\ colour = [i \in 1..Area(img) |-> 0] /\ fresh = 1
Spreading == {<<i, j>> \in Cells \X Bg : colour[i] # 0 /\ colour[j] = 0 /\ j \in Neigh(img, i)}
\* a new colour is only taken when the last one is everywhere it can go
Seed == /\ Spreading = {}
        /\ \E i \in Bg : colour[i] = 0 /\ colour' = [colour EXCEPT ![i] = fresh]
        /\ fresh' = fresh + 1 /\ UNCHANGED img
Spread == /\ \E ij \in Spreading : colour' = [colour EXCEPT ![ij[2]] = colour[ij[1]]]
          /\ UNCHANGED <<img, fresh>>
Spec == Init /\ [][Seed \/ Spread]_<<img, colour, fresh>>

Finished == \A i \in Bg : colour[i] # 0
Painted == {{i \in Bg : colour[i] = c} : c \in 1..(fresh - 1)}
InkNotPainted == \A i \in Cells : img.p[i] = Ink => colour[i] = 0
NeverMixed == \A z \in Zones(img) : Cardinality({colour[i] : i \in z} \ {0}) <= 1
PaintedIsZones == Finished => Painted = Zones(img)
BothMethods == fresh = 1 => SameBag(ZonesByFlood(img), ZonesBySweep(img))
Partition == fresh = 1 => /\ UNION Zones(img) = Bg
                          /\ \A y, z \in Zones(img) : y # z => y \cap z = {} /\ \A i \in y : Neigh(img, i) \cap z = {}
=============================================================================
