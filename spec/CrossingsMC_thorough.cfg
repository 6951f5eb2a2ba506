CONSTANTS Samples = {0, 2, 4}
          Queries = {0, 1, 2, 3, 4, 5}
          MaxLen = 9
SPECIFICATION Spec
INVARIANTS Alternate Split DiffCrossings Ordered
