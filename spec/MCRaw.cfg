SPECIFICATION Spec
CONSTANTS Alphabet = {0, 65, 128, 195, 233, 240}
  MaxLen = 5
INVARIANTS Inside Agrees Kept Good Stable
PROPERTY Ends
