CONSTANTS MaxEntries = 2
          Noise = {10, 32, 45, 48, 49, 53, 97, 255}
SPECIFICATION Spec
INVARIANTS GlyphsCut RowsCut InfosCut DictCut WellMade
