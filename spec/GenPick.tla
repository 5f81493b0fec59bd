-------------------------------- MODULE GenPick --------------------------------
(* Every input of the machine MCPick, written for the replay.                *)
EXTENDS MCPick, Json, IOUtils
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(
    {[words |-> SetToSeq(d), pos |-> p] :
        d \in UNION {kSubset(k, Words) : k \in 0..MaxWords}, p \in UNION {[1..n -> Lists] : n \in 0..MaxPositions}}))
GenSpec == (dict = {} /\ pos = <<>> /\ picked = <<>> /\ next = 0 /\ state = "") /\ [][FALSE]_vars
=============================================================================
