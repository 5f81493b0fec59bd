SPECIFICATION Spec
CONSTANT MaxArea = 6
INVARIANTS OrderIsTotal Transitive TurnKeepsInk FourTurns LastColumnFirst SectionOfAll SectionOfSection DrawIsFramed
