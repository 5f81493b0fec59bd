SPECIFICATION Spec
CONSTANT MaxRows = 3
INVARIANTS SameRows Shape Faithful
