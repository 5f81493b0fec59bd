SPECIFICATION Spec
CONSTANTS Length = 3
  MaxWords = 2
INVARIANTS Right Spaces Questions Plain
