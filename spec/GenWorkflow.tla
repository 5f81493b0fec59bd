----------------------------- MODULE GenWorkflow -----------------------------
(* Every image and labelling of the machine MCWorkflow, for the replay.      *)
EXTENDS MCWorkflow, Json, IOUtils
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(
    UNION {LET n == Len(Cut([w |-> m.w, h |-> m.h, p |-> m.p]).drawings) IN {[img |-> m, words |-> t] : t \in [1..n -> Words]} : m \in UNION {ImagesOf(d) : d \in Dims}}))
GenSpec == (img = <<>> /\ word = <<>> /\ phase = "" /\ glyphs = <<>> /\ normal = <<>> /\ rows = <<>> /\ text = <<>>) /\ [][FALSE]_vars
=============================================================================
