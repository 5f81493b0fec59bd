SPECIFICATION Spec
CONSTANTS Length = 4
  MaxWords = 2
INVARIANTS Right Spaces Questions Plain
