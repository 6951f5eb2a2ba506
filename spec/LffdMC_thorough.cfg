CONSTANTS Levels = {0, 1, 2, 4}
          MaxLen = 7
          MaxPieces = 4
SPECIFICATION Spec
INVARIANTS LffdExact SolveIdempotent FullNeverLost
