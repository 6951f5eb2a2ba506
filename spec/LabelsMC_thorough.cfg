SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  MaxCurves = 2
INVARIANT Laws
