CONSTANTS Ranges = {1, 2, 5, 8, 14}
          Means <- TwoMeans
          Counts = {1, 2, 4}
          MaxLen = 3
          Pars = {1, 2, 3, 4, 5}
SPECIFICATION Spec
INVARIANTS Conserved BackInPlace LargeKept SecondTrip
