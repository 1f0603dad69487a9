SPECIFICATION Spec
CONSTANTS Rules <- SimRules  MaxTok = 14  MaxExpr = 3  SortItems <- Items  MaxSort = 2  Guided = TRUE
INVARIANTS TreeWellFormed StrictNeverDrops Emit
CHECK_DEADLOCK FALSE
