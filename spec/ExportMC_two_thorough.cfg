CONSTANTS Ranges = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 14}
          Means <- AllMeans
          Counts = {1, 2, 3, 6}
          MaxLen = 2
          Pars = {1, 2, 3, 4, 5}
SPECIFICATION Spec
INVARIANTS Conserved BackInPlace LargeKept SecondTrip
