SPECIFICATION Spec
CONSTANTS MaxArea = 4
  MaxWidth = 4
INVARIANTS ReadBack NeverHalfRead
