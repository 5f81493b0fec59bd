SPECIFICATION Spec
CONSTANTS Values = {1, 2}
  MaxLen = 5
INVARIANTS Kept Whole Right Back
PROPERTY Ends
CHECK_DEADLOCK FALSE
