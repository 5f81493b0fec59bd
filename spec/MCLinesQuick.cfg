SPECIFICATION Spec
CONSTANT Length = 2
INVARIANTS Right Shrinks Certain Unknown
PROPERTY OneFont
