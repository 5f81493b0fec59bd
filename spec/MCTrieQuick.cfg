SPECIFICATION Spec
CONSTANTS Letters = {97, 98}
  MaxLen = 2
  MaxWords = 3
INVARIANTS Walks NoDeadEnd FlatAgrees FileAgrees
PROPERTY Grows
