----------------------------- MODULE MCZoneSweep -----------------------------
(* The two ways of finding the areas agree on every image of a size.         *)
EXTENDS Features
CONSTANTS W, H
VARIABLE img
Init == img \in {[w |-> W, h |-> H, p |-> p] : p \in [1..(W * H) -> {Ink, Dash}]}
Spec == Init /\ [][FALSE]_img
BothMethods == SameBag(ZonesByFlood(img), ZonesBySweep(img))
=============================================================================
