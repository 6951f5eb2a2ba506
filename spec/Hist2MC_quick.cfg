CONSTANTS Ranges = {1, 2, 5, 6, 10}
          Means <- SomeMeans
          Counts = {1, 2, 6}
          MaxLen = 2
SPECIFICATION Spec
INVARIANTS Total
