SPECIFICATION Spec
CONSTANTS MaxGlyphs = 3
  Drawings = 9
INVARIANTS Right Known Origin RankFree
