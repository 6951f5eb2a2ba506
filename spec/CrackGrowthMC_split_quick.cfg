SPECIFICATION Spec
CONSTANTS
  Use = {2, 3, 5, 6, 7}
  Stresses = {1, 2, 5}
  Counts2 = {1, 2, 3, 4, 5, 24, 51, 250}
  Modes = {FALSE, TRUE}
  Initial <- Depths
  MaxLen = 2
INVARIANTS SameLength NeverShrinks StartsAtInitial AllCycles FailsEarly SplitAddsUp SplitEven Unclustered Reason
CHECK_DEADLOCK FALSE
