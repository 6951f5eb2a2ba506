CONSTANTS Rows <- FewRows
          Larges <- LgSet
          Residuals <- ResSet
          MaxRows = 3
          MaxLg = 2
          MaxRes = 2
SPECIFICATION Spec
INVARIANTS Literal FlatSame
