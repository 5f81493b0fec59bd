SPECIFICATION Spec
CONSTANT MaxGlyphs = 3
INVARIANTS RoundTrip Merged Partial Unique Fonts
