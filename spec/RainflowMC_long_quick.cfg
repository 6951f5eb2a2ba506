CONSTANTS Levels = {0, 1, 3}
          MaxLen = 8
SPECIFICATION Spec
INVARIANTS FoldAgrees Conservation ReversalBudget PositiveRanges
           ResidualIsSignal ResidualPairsAreHalves RecountResidual
           AgreesWithAstm RowsAreSignalPairs CrossingsAlternate ReversalsMatch
