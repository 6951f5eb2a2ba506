CONSTANTS Ranges = {1, 2, 4, 5, 8, 11, 14}
          Means <- AllMeans
          Counts = {1, 2, 6}
          MaxLen = 2
          Pars = {1, 2, 3, 4, 5}
SPECIFICATION Spec
INVARIANTS Conserved BackInPlace LargeKept SecondTrip
