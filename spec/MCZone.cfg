SPECIFICATION Spec
CONSTANTS MaxArea = 9
  MinArea = 1
INVARIANTS InkNotPainted NeverMixed PaintedIsZones BothMethods Partition
