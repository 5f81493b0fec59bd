SPECIFICATION Spec
CONSTANTS
  Drawings = {d1, d2, d3}
  Answers = {{}, {1}, {2}, {1, 2}}
  MaxLen = 4
INVARIANTS SameEverywhere ShownOnce CacheRight OneListEach
