SPECIFICATION Spec
CONSTANTS Rules <- SimRules  MaxTok = 1  MaxExpr = 1  SortItems <- Items  MaxSort = 3  Guided = FALSE
INVARIANTS TreeWellFormed StrictNeverDrops Emit
CHECK_DEADLOCK FALSE
CONSTRAINT SortOrExpr
