CONSTANTS
  MaxOps = 2
  Configs = {1, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS Twice Idle Alike
