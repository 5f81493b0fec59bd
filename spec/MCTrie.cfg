SPECIFICATION Spec
CONSTANTS Letters = {97, 98}
  MaxLen = 3
  MaxWords = 4
INVARIANTS Walks Rule NoDeadEnd FlatAgrees FileAgrees
PROPERTY Grows
