SPECIFICATION Spec
CONSTANTS
  M = 24
  NH = 48
  Steps = 5
  Seed = 1
INVARIANTS OneName Reproducible NothingOnRefusal
CHECK_DEADLOCK FALSE
