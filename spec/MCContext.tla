------------------------------- MODULE MCContext -------------------------------
(* The working context: the areas of the current image are found once, by    *)
(* the first measure which needs them, and kept for the others until the     *)
(* context is reset for the next image.  Measures are asked in any order.    *)
EXTENDS Features

CONSTANTS MaxArea, MaxImages
VARIABLES img,        \* current image
          zones,      \* what the context holds: None or the sides of the areas
          seen,       \* number of images
          answer      \* last measure: <<which, value>>
None == [have |-> FALSE, sides |-> <<>>]
NoAnswer == <<"none">>
Sizes == {<<w, h>> \in (1..MaxArea) \X (1..MaxArea) : w * h <= MaxArea}
Images == UNION {{[w |-> s[1], h |-> s[2], p |-> p] : p \in [1..(s[1] * s[2]) -> {Ink, Dash}]} : s \in Sizes}

Init == img \in Images /\ zones = None /\ seen = 1 /\ answer = NoAnswer
NextImage == seen < MaxImages /\ seen' = seen + 1 /\ img' \in Images /\ zones' = None /\ answer' = NoAnswer
Compute == IF zones.have THEN zones ELSE [have |-> TRUE, sides |-> ZoneSides(img)]
AskZone == /\ zones' = Compute
           /\ answer' = <<"zone", ZoneFeatureOf(img, Compute.sides)>>
           /\ UNCHANGED <<img, seen>>
AskShares == /\ zones' = Compute
             /\ answer' = <<"shares", PropZoneOf(Compute.sides)>>
             /\ UNCHANGED <<img, seen>>
AskOther == /\ answer' = <<"density", Density(img)>> /\ UNCHANGED <<img, seen, zones>>
Spec == Init /\ [][NextImage \/ AskZone \/ AskShares \/ AskOther]_<<img, zones, seen, answer>>

\* whatever happened before, an answer is that of the current image alone
NoMemory == answer # NoAnswer =>
    answer[2] = CASE answer[1] = "zone" -> ZoneFeature(img)
                  [] answer[1] = "shares" -> PropZone(img)
                  [] OTHER -> Density(img)
=============================================================================
