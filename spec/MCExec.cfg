SPECIFICATION Spec
CONSTANTS
  Shapes <- Core
  MaxRows = 2
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
