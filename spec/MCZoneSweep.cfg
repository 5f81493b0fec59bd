SPECIFICATION Spec
CONSTANTS W = 4
  H = 4
INVARIANT BothMethods
