SPECIFICATION Spec
CONSTANT
  Types <- AllTypes
  MaxLen = 2
  Lists = "few"
INVARIANT Faithful
INVARIANT Emit
CHECK_DEADLOCK FALSE
