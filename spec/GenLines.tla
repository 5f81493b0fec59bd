------------------------------- MODULE GenLines -------------------------------
(* Every input of the machine MCLines, written for the replay.               *)
EXTENDS MCLines, Json, IOUtils
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(
    {[lists |-> l, boxes |-> b, info |-> f] :
        l \in [1..Length -> Lists0], b \in [1..Length -> Boxes0], f \in Lines0 \X Lines0}))
GenSpec == (start = <<>> /\ boxes = <<>> /\ info = <<>> /\ L = <<>> /\ bottoms = Zero /\ tops = Zero /\ i = 0 /\ stage = "") /\ [][FALSE]_vars
=============================================================================
