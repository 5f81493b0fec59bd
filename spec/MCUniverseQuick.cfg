SPECIFICATION Spec
CONSTANTS MaxGlyphs = 2
  Drawings = 9
INVARIANTS Right Known Origin RankFree
