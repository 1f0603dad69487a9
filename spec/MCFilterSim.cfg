\* long random behaviours over the whole catalogue
SPECIFICATION SimSpec
CONSTANTS MaxLen = 12  MaxDepth = 3  Preds <- AllPreds  SortKeys <- AllKeys  Nums <- AllNums  Positions <- AllPositions
INVARIANTS TypeOK GroupsWellFormed Emit
CHECK_DEADLOCK FALSE
