SPECIFICATION Spec
CONSTANT MaxArea = 7
INVARIANTS InRange Bars BlankIsNeutral FullIsBalanced Mirror Alts ZoneLaws SharesLaw
PROPERTY Denser
