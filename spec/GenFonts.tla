------------------------------- MODULE GenFonts -------------------------------
(* Every line of lists of the machine MCLines up to a length, for the replay.*)
EXTENDS MCLines, Json, IOUtils
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(UNION {[1..n -> Lists0] : n \in 0..Length}))
GenSpec == (start = <<>> /\ boxes = <<>> /\ info = <<>> /\ L = <<>> /\ bottoms = Zero /\ tops = Zero /\ i = 0 /\ stage = "") /\ [][FALSE]_vars
=============================================================================
