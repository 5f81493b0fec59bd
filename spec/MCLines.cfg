SPECIFICATION Spec
CONSTANT Length = 3
INVARIANTS Right Shrinks Certain Unknown
PROPERTY OneFont
