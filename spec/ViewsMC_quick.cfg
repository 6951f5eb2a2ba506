CONSTANTS Ranges = {1, 4, 7}
          Means <- FewMeans
          Counts = {1, 2, 5}
          MaxLen = 3
SPECIFICATION Spec
INVARIANTS Nothing Dispersion Sides Falling
