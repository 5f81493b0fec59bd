SPECIFICATION Spec
CONSTANT MaxArea = 12
INVARIANTS InRange Bars BlankIsNeutral FullIsBalanced Mirror Alts ZoneLaws SharesLaw
PROPERTY Denser
