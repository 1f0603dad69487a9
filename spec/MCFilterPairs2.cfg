\* one predicate of each kind at every pair of positions, with connectors and groups
SPECIFICATION Spec
CONSTANTS MaxLen = 3  MaxDepth = 1  Preds <- FewPreds  SortKeys <- NoKeys  Nums <- NoNums  Positions <- OnePosition
INVARIANTS TypeOK GroupsWellFormed Emit
PROPERTIES Monotone CountIgnoresPaging
CHECK_DEADLOCK FALSE
