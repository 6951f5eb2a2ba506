CONSTANTS
  MaxOps = 3
  Configs = {1, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS Twice Idle Alike
