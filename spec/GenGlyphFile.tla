----------------------------- MODULE GenGlyphFile -----------------------------
(* Every list of glyphs of the machine MCGlyphFile, written for the replay.  *)
EXTENDS MCGlyphFile, Json, IOUtils
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(UNION {[1..n -> Glyph0] : n \in 0..MaxGlyphs}))
GenSpec == (glyphs = <<>> /\ todo = <<>> /\ normal = <<>> /\ stage = "") /\ [][FALSE]_vars
=============================================================================
