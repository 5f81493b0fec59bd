SPECIFICATION Spec
CONSTANTS MaxCells = 6
          MaxSide = 7
          MaxRepeat = 4
          Million <- Seven
INVARIANTS Measures Cutting Turning Inked Parts
CHECK_DEADLOCK FALSE
