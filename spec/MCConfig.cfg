SPECIFICATION Spec
CONSTANTS
  N = 50
  Seed = 1
INVARIANTS Priority NothingOnRefusal
CHECK_DEADLOCK FALSE
