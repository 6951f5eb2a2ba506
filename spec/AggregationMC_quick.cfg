SPECIFICATION Spec
CONSTANTS
  Gaps = {10, 60, 1440}
  MaxRows = 3
  Use = {0, 1, 2, 3}
  Values <- ValueSet
INVARIANTS OneWindow Partition InOrder FullsGrow
CHECK_DEADLOCK FALSE
