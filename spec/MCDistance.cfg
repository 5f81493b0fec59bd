SPECIFICATION Spec
CONSTANTS MaxLen = 3
  ShareValues = {0, 1, 33, 50, 99, 100}
  Step = 1
INVARIANTS InRange Reflexive Symmetric TestAgrees
