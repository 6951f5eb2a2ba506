SPECIFICATION Spec
CONSTANTS
  Use = {1, 2, 3, 4, 5, 6}
  Stresses = {0, 1, 2, 3, 6}
  Counts2 = {1, 2}
  Modes = {FALSE}
  Initial <- Depths
  MaxLen = 5
INVARIANTS SameLength NeverShrinks StartsAtInitial AllCycles FailsEarly SplitAddsUp SplitEven Unclustered Reason
CHECK_DEADLOCK FALSE
