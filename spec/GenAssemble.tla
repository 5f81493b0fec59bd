------------------------------ MODULE GenAssemble ------------------------------
(* Every input of the machine MCAssemble, written for the replay.            *)
EXTENDS MCAssemble, Json, IOUtils
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(
    {[words |-> SetToSeq(d), lists |-> l, gaps |-> SetToSeq(g)] :
        d \in UNION {kSubset(k, Dict0) : k \in 0..MaxWords},
        l \in UNION {[1..n -> Lists0] : n \in 0..Length}, g \in SUBSET (2..Length)}))
GenSpec == (dict = {} /\ L = <<>> /\ gaps = {} /\ i = 0 /\ word = <<>> /\ text = <<>>) /\ [][FALSE]_vars
=============================================================================
