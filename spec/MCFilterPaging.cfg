SPECIFICATION Spec
CONSTANTS MaxLen = 4  MaxDepth = 0  Preds <- PagingPreds  SortKeys <- TwoKeys  Nums <- PageNums  Positions <- OnePosition
INVARIANTS TypeOK GroupsWellFormed Emit
PROPERTIES Monotone CountIgnoresPaging
CHECK_DEADLOCK FALSE
