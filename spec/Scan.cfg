SPECIFICATION Spec
CONSTANT
  Dests = {1, 2}
  Vals = {"v1", "v2"}
  MaxSteps = 3
INVARIANT Holds
INVARIANT Emit
PROPERTY Local
PROPERTY Stays
CHECK_DEADLOCK FALSE
