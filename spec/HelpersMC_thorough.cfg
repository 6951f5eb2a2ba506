SPECIFICATION Spec
CONSTANTS
  Steps = {0, 1, 2, 3, 5, 8, 64}
  Durations = {0, 1, 2, 3, 5, 8, 13, 40, 63, 64, 65, 128, 130}
  Starts = {0, 1, 7, 64, 100, 1000, 4096}
  MaxWhat = 200
  MaxBy = 40
  MaxLen = 40
  Numbers = {0, 1, 2, 9, 10, 123, 2024}
INVARIANT Laws
