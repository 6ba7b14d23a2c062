CONSTANTS K = 2
 Dangling = 0
 Count = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
