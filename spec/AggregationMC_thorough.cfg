SPECIFICATION Spec
CONSTANTS
  Gaps = {10, 60, 1440}
  MaxRows = 4
  Use = {0, 1, 2}
  Values <- ValueSet
INVARIANTS OneWindow Partition InOrder FullsGrow
CHECK_DEADLOCK FALSE
