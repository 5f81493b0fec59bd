SPECIFICATION Spec
CONSTANT MaxArea = 4
INVARIANTS OrderIsTotal Transitive TurnKeepsInk FourTurns LastColumnFirst SectionOfAll SectionOfSection DrawIsFramed
