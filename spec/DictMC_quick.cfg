CONSTANTS Rows <- RowSet
          Larges <- LgSet
          Residuals <- ResSet
          MaxRows = 2
          MaxLg = 1
          MaxRes = 1
SPECIFICATION Spec
INVARIANTS Literal FlatSame
