SPECIFICATION Spec
CONSTANTS Letters = {97, 98}
  MaxText = 5
  MaxReps = 1
INVARIANTS Right SoFar Neutral
PROPERTY Ends
