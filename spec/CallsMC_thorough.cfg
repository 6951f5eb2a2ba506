CONSTANTS Own = 32
          Numeric = 31
          Many = 16
          MaxLen = 3
          Every = TRUE
SPECIFICATION Spec
INVARIANTS Promise Commute
