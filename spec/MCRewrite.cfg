SPECIFICATION Spec
CONSTANTS Letters = {97, 98}
  MaxText = 4
  MaxReps = 2
INVARIANTS Right SoFar Neutral
