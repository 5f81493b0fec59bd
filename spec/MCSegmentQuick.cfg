SPECIFICATION Spec
CONSTANT MaxArea = 8
INVARIANTS Progress SoFar AllTheInk NeverInside SameAsBoxes NotSplit
PROPERTY Terminates
