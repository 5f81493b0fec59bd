------------------------------ MODULE GenRewrite ------------------------------
(* Every input of the machine MCRewrite, written for the replay.             *)
EXTENDS MCRewrite, Json, IOUtils
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(
    {[text |-> t, reps |-> r] : t \in Texts(MaxText), r \in UNION {[1..n -> Texts(2) \X Texts(2)] : n \in 0..MaxReps}}))
GenSpec == (first = <<>> /\ reps = <<>> /\ k = 0 /\ text = <<>> /\ i = 0 /\ out = <<>>) /\ [][FALSE]_vars
=============================================================================
