SPECIFICATION Spec
CONSTANTS
  Stresses = {1, 2, 3, 5}
  Counts2 = {1, 2}
INVARIANTS Ties
CHECK_DEADLOCK FALSE
