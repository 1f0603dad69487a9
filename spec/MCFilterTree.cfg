\* every order of a few representative calls
SPECIFICATION Spec
CONSTANTS MaxLen = 4  MaxDepth = 2  Preds <- TinyPreds  SortKeys <- NoKeys  Nums <- NoNums  Positions <- OnePosition
INVARIANTS TypeOK GroupsWellFormed Emit
PROPERTIES Monotone CountIgnoresPaging
CHECK_DEADLOCK FALSE
