SPECIFICATION Spec
CONSTANTS
  ND = 50
  NR = 3
  Seed = 1
  Family = "change"
INVARIANT Consistent
INVARIANT Lawful
CHECK_DEADLOCK FALSE
