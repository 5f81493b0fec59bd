SPECIFICATION Spec
CONSTANTS Drawings = {1, 2, 3}
  MaxImages = 3
INVARIANTS Complete Untouched Honest Correspond
PROPERTY Ends
