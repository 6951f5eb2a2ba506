CONSTANTS MaxOps = 3
          Free = 1
          Configs = {1, 2, 3, 4, 5}
SPECIFICATION Spec
INVARIANTS Sane ScalingCommutes AddAssociates Idempotent
PROPERTY Immutable
