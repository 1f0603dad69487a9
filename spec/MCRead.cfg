SPECIFICATION Spec
CONSTANTS
  ND = 50
  NR = 3
  Seed = 1
INVARIANT Consistent
CHECK_DEADLOCK FALSE
