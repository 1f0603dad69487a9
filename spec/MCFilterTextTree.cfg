SPECIFICATION Spec
CONSTANTS Rules <- TinyRules  MaxTok = 5  MaxExpr = 1  SortItems = {}  MaxSort = 0  Guided = FALSE
INVARIANTS TreeWellFormed StrictNeverDrops Emit
CHECK_DEADLOCK FALSE
