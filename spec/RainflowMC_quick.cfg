CONSTANTS Levels = {0, 1, 2, 3, 5}
          MaxLen = 6
SPECIFICATION Spec
INVARIANTS FoldAgrees Conservation ReversalBudget PositiveRanges
           ResidualIsSignal ResidualPairsAreHalves RecountResidual
           AgreesWithAstm RowsAreSignalPairs CrossingsAlternate ReversalsMatch
