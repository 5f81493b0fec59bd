SPECIFICATION Spec
CONSTANTS MaxLen = 2
  ShareValues = {0, 1, 33, 50, 99, 100}
  Step = 3
INVARIANTS InRange Reflexive Symmetric TestAgrees
