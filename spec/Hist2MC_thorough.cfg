CONSTANTS Ranges = {0, 1, 2, 4, 5, 6, 10, 11}
          Means <- SomeMeans
          Counts = {1, 2, 6}
          MaxLen = 2
SPECIFICATION Spec
INVARIANTS Total
