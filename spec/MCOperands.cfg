SPECIFICATION Spec
CONSTANTS
  Part = "fields"
  From = 0
  Share = 20
  Seed = 1
INVARIANTS Decided NoOperator BetweenBoth Sides
CHECK_DEADLOCK FALSE
