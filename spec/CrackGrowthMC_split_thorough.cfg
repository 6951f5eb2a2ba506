SPECIFICATION Spec
CONSTANTS
  Use = {2, 3, 4, 5, 6, 7}
  Stresses = {1, 2, 5}
  Counts2 = {2, 3, 4, 5, 51, 250}
  Modes = {FALSE, TRUE}
  Initial <- Depths
  MaxLen = 3
INVARIANTS SameLength NeverShrinks StartsAtInitial AllCycles FailsEarly SplitAddsUp SplitEven Unclustered Reason
CHECK_DEADLOCK FALSE
