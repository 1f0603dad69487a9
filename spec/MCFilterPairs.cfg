\* every predicate alone and in every pair position with connectors
SPECIFICATION Spec
CONSTANTS MaxLen = 1  MaxDepth = 1  Preds <- AllPreds  SortKeys <- AllKeys  Nums <- AllNums  Positions <- OnePosition
INVARIANTS TypeOK GroupsWellFormed Emit
PROPERTIES Monotone CountIgnoresPaging
CHECK_DEADLOCK FALSE
