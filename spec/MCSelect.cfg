SPECIFICATION Spec
CONSTANT
  Many = 2
INVARIANT Inside
INVARIANT Narrows
INVARIANT Emit
CHECK_DEADLOCK FALSE
