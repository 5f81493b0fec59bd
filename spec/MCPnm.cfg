SPECIFICATION Spec
CONSTANTS MaxArea = 6
  MaxWidth = 6
INVARIANTS ReadBack NeverHalfRead
