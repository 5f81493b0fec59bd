SPECIFICATION Spec
CONSTANTS Points = {1, 65, 127, 128, 233, 2047, 2048, 8364, 55295, 57344, 65535, 65536, 128512, 1114111}
  MaxChars = 4
INVARIANTS Walked Whole Order
