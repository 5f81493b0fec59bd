SPECIFICATION Spec
CONSTANT MaxArea = 12
INVARIANTS Progress SoFar AllTheInk NeverInside SameAsBoxes NotSplit
PROPERTY Terminates
