SPECIFICATION Spec
CONSTANTS Letters = {97, 98}
  MaxPositions = 2
  MaxWords = 1
INVARIANTS Right Sound Live
