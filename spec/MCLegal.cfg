SPECIFICATION Spec
CONSTANTS
  N = 4000
  From0 = 0
  Seed = 1
  Mode = "mix"
INVARIANTS Verdicts OneOf Reasoned
PROPERTY Monotone
CHECK_DEADLOCK FALSE
