CONSTANTS Levels = {0, 1, 2, 3}
          MaxLen = 6
          Stretches = {2, 5}
          Reps = {4, 5, 7}
SPECIFICATION Spec
INVARIANTS StretchLaw RepeatLaw
