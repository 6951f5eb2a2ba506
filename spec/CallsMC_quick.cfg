CONSTANTS Own = 32
          Numeric = 31
          Many = 16
          MaxLen = 2
          Every = FALSE
SPECIFICATION Spec
INVARIANTS Promise Commute
