CONSTANT N = 105
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
