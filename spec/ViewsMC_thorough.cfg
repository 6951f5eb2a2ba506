CONSTANTS Ranges = {1, 4, 7}
          Means <- SomeMeans
          Counts = {1, 2, 5, 6}
          MaxLen = 3
SPECIFICATION Spec
INVARIANTS Nothing Dispersion Sides Falling
