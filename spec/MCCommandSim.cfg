SPECIFICATION Spec
CONSTANT
  Runs = 5
INVARIANT Complete
INVARIANT Emit
PROPERTY AllOrNothing
CHECK_DEADLOCK FALSE
