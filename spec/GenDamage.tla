------------------------------- MODULE GenDamage -------------------------------
(* The files which the writer of the machine MCDamage writes.                *)
EXTENDS MCDamage, Json, IOUtils
Of(k, Wr(_), S) == {[kind |-> k, b |-> Wr(x)] : x \in S}
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(
    Of("glyphs", FileBytes, Lists(Glyphs0)) \cup Of("rows", RowsBytes, Lists(Rows0))
    \cup Of("infos", LAMBDA s : Each(InfoBytes, s), Lists(Infos0)) \cup Of("dict", DictBytes, SUBSET Words0)))
GenSpec == (kind = "" /\ things = <<>> /\ file = <<>> /\ n = 0 /\ hurt = FALSE) /\ [][FALSE]_vars
=============================================================================
