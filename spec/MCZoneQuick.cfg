SPECIFICATION Spec
CONSTANTS MaxArea = 6
  MinArea = 1
INVARIANTS InkNotPainted NeverMixed PaintedIsZones BothMethods Partition
