------------------------------ MODULE GenSession ------------------------------
(* Every line of the machine MCSession (drawings are numbers), for the replay.*)
EXTENDS MCSession, TLC, SequencesExt, Json, IOUtils
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(UNION {[1..n -> Drawings] : n \in 1..MaxLen}))
GenSpec == (line = <<>> /\ rec = <<>> /\ at = 0 /\ cache = <<>> /\ lists = <<>> /\ shown = <<>> /\ filtered = <<>>) /\ [][FALSE]_vars
=============================================================================
