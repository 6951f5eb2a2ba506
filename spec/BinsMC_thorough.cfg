CONSTANTS Values = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
          Counts = {1, 2, 4, 5}
          MaxLen = 3
          Widths = {2, 4, 6}
          Lowers = {0, 1, 3}
SPECIFICATION Spec
INVARIANTS Contiguous Cover InBin Split
