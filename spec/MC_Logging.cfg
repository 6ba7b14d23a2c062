SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS OncePlaced InOrder
PROPERTIES Kept OnlyLast Admissible
CHECK_DEADLOCK FALSE
