CONSTANTS Levels = {0, 1, 2, 4}
          MaxLen = 6
          MaxPieces = 3
SPECIFICATION Spec
INVARIANTS LffdExact SolveIdempotent FullNeverLost
