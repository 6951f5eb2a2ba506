SPECIFICATION Spec
CONSTANTS
  Slopes = {1, 2, 3, 5}
  Firsts <- OneFirst
  KneesAt <- FewKnees
  Limits <- LimitSet
  MaxSegs = 3
INVARIANTS Monotone MonotoneSif InverseAtSif InverseAtRate Saturates KneesOnBoth
CHECK_DEADLOCK FALSE
