SPECIFICATION Spec
CONSTANTS
  Drawings = {d1, d2}
  Answers = {{}, {1}, {2}, {1, 2}}
  MaxLen = 3
INVARIANTS SameEverywhere ShownOnce CacheRight OneListEach
