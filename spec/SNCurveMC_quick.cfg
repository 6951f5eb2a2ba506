CONSTANTS Slopes = {1, 2, 3, 5, 7}
          Firsts = {21, 30, 33}
          KneesAt <- KneeSet
          Ends = {18, 20, 28, 40}
          MaxSegs = 3
SPECIFICATION Spec
INVARIANTS Monotone MonotoneStress InverseAtCycles InverseTight InverseAtStress BeyondEndurance KneesOnBoth
