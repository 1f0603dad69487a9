\* long random behaviours that mostly order and page
SPECIFICATION PageSpec
CONSTANTS MaxLen = 10  MaxDepth = 1  Preds <- FewPreds  SortKeys <- AllKeys  Nums <- AllNums  Positions <- OnePosition
INVARIANTS TypeOK GroupsWellFormed Emit
CHECK_DEADLOCK FALSE
