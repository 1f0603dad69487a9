SPECIFICATION Spec
CONSTANTS
  ND = 20
  NP = 6
  NR = 2
  Seed = 1
INVARIANT Sane
CHECK_DEADLOCK FALSE
