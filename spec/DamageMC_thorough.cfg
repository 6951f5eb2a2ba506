CONSTANTS Stresses = {0, 1, 2, 3, 4, 6, 5}
          Counts = {1, 2, 3, 8}
          MaxLen = 3
          Curves = {1, 2, 3, 4, 5}
SPECIFICATION Spec
INVARIANTS Settled NonNegative OrderFree Additive Grows Equivalent ShiftRange
