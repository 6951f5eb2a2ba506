CONSTANTS Rules = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}
          Levels <- LevelSet
          Targets <- TargetSet
          MaxLen = 3
SPECIFICATION Spec
INVARIANTS Whole MinerCase LastFree
