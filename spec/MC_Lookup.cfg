SPECIFICATION Spec
CONSTANTS N = 3  Times <- TimesDef
INVARIANTS AnswerAllowed NothingIsExclusive
PROPERTIES Improves
CHECK_DEADLOCK FALSE
