CONSTANTS Slopes = {1, 2, 3, 4, 5, 7}
          Firsts = {21, 27, 30, 33}
          KneesAt <- KneeSet
          Ends = {15, 18, 20, 24, 28, 31, 40}
          MaxSegs = 4
SPECIFICATION Spec
INVARIANTS Monotone MonotoneStress InverseAtCycles InverseTight InverseAtStress BeyondEndurance KneesOnBoth
