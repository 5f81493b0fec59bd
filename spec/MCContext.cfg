SPECIFICATION Spec
CONSTANTS MaxArea = 4
  MaxImages = 3
INVARIANT NoMemory
