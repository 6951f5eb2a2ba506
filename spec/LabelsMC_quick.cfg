SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxCurves = 2
INVARIANT Laws
