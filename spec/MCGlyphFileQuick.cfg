SPECIFICATION Spec
CONSTANT MaxGlyphs = 2
INVARIANTS RoundTrip Merged Partial Unique Fonts
