SPECIFICATION Spec
CONSTANTS N = 3  Times <- TimesDef  Queries <- QueriesDef
CHECK_DEADLOCK FALSE
