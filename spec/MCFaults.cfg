SPECIFICATION Spec
CONSTANTS Programs = 3
  Raw = 2
  MaxSize = 3
  MaxRoom = 10
  MaxBuffer = 3
INVARIANTS Honest Kept Whole Enough
PROPERTY Ends
