SPECIFICATION Spec
CONSTANTS
  ND = 10
  NP = 6
  NC = 2
  Seed = 1
INVARIANTS Sane Apart NoLeak
CHECK_DEADLOCK FALSE
