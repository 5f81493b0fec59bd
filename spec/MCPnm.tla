-------------------------------- MODULE MCPnm --------------------------------
(* A writer and a reader of image files.  The writer picks an image, a type, *)
(* comments and colours and writes the file; then the file may be damaged    *)
(* (cut anywhere, extended).  What the reader says of it is decided by       *)
(* Decode alone.                                                             *)
EXTENDS Pnm

CONSTANTS MaxArea, MaxWidth
VARIABLES img, type, note, file, damage

vars == <<img, type, note, file, damage>>
Lum == 128
Sizes == {<<w, h>> \in (1..MaxWidth) \X (1..MaxArea) : w * h <= MaxArea}
Images == UNION {{[w |-> s[1], h |-> s[2], p |-> p] : p \in [1..(s[1] * s[2]) -> {Ink, Dash}]} : s \in Sizes}
\* wide images for the rows of bits: only their ends vary
WideImages == {MkImg(w, h, LAMBDA x, y : IF x \in e THEN Ink ELSE Dash) :
                  w \in 7..17, h \in 1..2, e \in SUBSET {0, 6, 7, 8, 15, 16}}
Notes == {<<>>, <<35, 10>>, <<35, 49, 32, 49, 10, 35, 35, 10>>}
Dark  == {<<0, 0, 0>>, <<127, 127, 127>>}
Light == {<<255, 255, 255>>, <<129, 129, 129>>}

Init == /\ \/ img \in Images /\ type \in {1, 3, 4, 6}
           \/ img \in WideImages /\ type = 4
        /\ note \in Notes
        /\ file = <<>> /\ damage = "unwritten"
Write == /\ damage = "unwritten" /\ damage' = "none"
         /\ \E d \in Dark, l \in Light :
                /\ type = 6 \/ (d = <<0, 0, 0>> /\ l = <<255, 255, 255>>)
                /\ file' = Encode(type, note, img, d, l)
         /\ UNCHANGED <<img, type, note>>
Cut == /\ damage = "none" /\ damage' = "cut"
       /\ \E n \in 0..(Len(file) - 1) : file' = SubSeq(file, 1, n)
       /\ UNCHANGED <<img, type, note>>
Extend == /\ damage = "none" /\ damage' = "extended"
          /\ \E x \in {<<0>>, <<48>>, <<49, 49>>, <<0, 0, 0>>} : file' = file \o x
          /\ UNCHANGED <<img, type, note>>
EndOfLine == /\ damage = "none" /\ type \in {1, 3} /\ damage' = "ended"
             /\ file' = Append(file, 10)
             /\ UNCHANGED <<img, type, note>>
Next == Write \/ Cut \/ Extend \/ EndOfLine
Spec == Init /\ [][Next]_vars

Result == Decode(file, Lum)
\* I01
ReadBack == damage \in {"none", "ended"} =>
               Result = [ok |-> TRUE, w |-> img.w, h |-> img.h, p |-> img.p]
\* I02
NeverHalfRead == damage \in {"unwritten", "cut", "extended"} => ~Result.ok
=============================================================================
