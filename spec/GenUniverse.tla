------------------------------ MODULE GenUniverse ------------------------------
(* Every database of the machine MCUniverse and its drawings, for the replay.*)
EXTENDS MCUniverse, Json, IOUtils
ASSUME JsonSerialize(IOEnv.OUT,
    [images |-> [i \in 1..Drawings |-> Imgs[i]], rows |-> RowsOfImgs,
     dbs |-> SetToSeq(UNION {[1..n -> (1..Drawings) \X Views0] : n \in 0..MaxGlyphs})])
GenSpec == (db = Empty /\ asked = 0 /\ left = {} /\ col = 0 /\ out = <<>> /\ taken = {} /\ stage = "") /\ [][FALSE]_vars
=============================================================================
