SPECIFICATION Spec
CONSTANTS MaxCells = 4
          MaxSide = 5
          MaxRepeat = 3
          Million <- Seven
INVARIANTS Measures Cutting Turning Inked Parts
CHECK_DEADLOCK FALSE
