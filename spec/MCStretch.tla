------------------------------ MODULE MCStretch ------------------------------
(* A stretched drawing and its pixels say the same: measures, boxes, turns,   *)
(* parts.  The image is made by repeating columns and rows of a small drawing.*)
EXTENDS Stretch
CONSTANTS MaxCells, MaxSide, MaxRepeat
\* pairs with a small base, so that they carry
Seven == 7
VARIABLES g, cw, rh
vars == <<g, cw, rh>>
Sizes == {<<w, h>> \in (1..MaxCells) \X (1..MaxCells) : w * h <= MaxCells}
Init == /\ \E s \in Sizes : g \in {[w |-> s[1], h |-> s[2], p |-> p] : p \in [1..(s[1] * s[2]) -> {Ink, Dash}]}
        /\ cw = [k \in 1..g.w |-> 1] /\ rh = [k \in 1..g.h |-> 1]
Widen == \E k \in 1..g.w : cw[k] < MaxRepeat /\ SumSeq(cw) < MaxSide /\ cw' = [cw EXCEPT ![k] = @ + 1] /\ UNCHANGED <<g, rh>>
Raise == \E k \in 1..g.h : rh[k] < MaxRepeat /\ SumSeq(rh) < MaxSide /\ rh' = [rh EXCEPT ![k] = @ + 1] /\ UNCHANGED <<g, cw>>
Next == Widen \/ Raise
Spec == Init /\ [][Next]_vars

S == Stretched(g, cw, rh)
Same(r1, r2) == r1.n = r2.n /\ r1.a = r2.a /\ r1.z = r2.z /\ r1.pz = r2.pz
Measures == Same(SRow(S), Row(Expand(S)))
Cutting  == SBoxes(S) = Boxes(Expand(S))
Turning  == Expand(Turned(S)) = Rotate90(Expand(S))
Inked    == SInk(S) = Cardinality(InkSet(Expand(S)))
Parts    == \A x \in 0..(S.w - 1), y \in 0..(S.h - 1) : \A w \in {1, S.w - x}, h \in {1, S.h - y} :
               Expand(Part(S, x, y, w, h)) = Section(Expand(S), x, y, w, h)
=============================================================================
