CONSTANTS Ranges = {2, 5, 9, 14}
          Means <- TwoMeans
          Counts = {1, 2, 4}
          MaxLen = 3
          Pars = {1, 3, 4}
SPECIFICATION Spec
INVARIANTS Conserved BackInPlace LargeKept SecondTrip
