SPECIFICATION Spec
CONSTANTS
  Stresses = {2, 5}
  Counts2 = {1, 2, 3, 198, 200, 202, 1999, 2000, 2001, 2468, 3999, 19999, 20000, 20001, 199999, 246914, 2000000}
  Small2 = {1, 2, 3, 18, 19, 20, 21, 22, 39, 40, 41, 198, 199, 200, 201, 202, 247, 400, 1998, 2000, 2001, 2468, 4000, 4001}
  MaxLen = 2
INVARIANTS AddsUp
CHECK_DEADLOCK FALSE
