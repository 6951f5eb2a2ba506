SPECIFICATION Spec
CONSTANTS
  Steps = {0, 1, 2, 3, 5, 8, 64}
  Durations = {0, 1, 2, 3, 5, 8, 13, 40, 63, 64, 65, 128, 130}
  Starts = {0, 1, 7, 64, 1000}
  MaxWhat = 40
  MaxBy = 12
  MaxLen = 14
  Numbers = {0, 1, 7, 12}
INVARIANT Laws
