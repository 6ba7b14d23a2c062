SPECIFICATION Spec
CONSTANT Limits = {0,3}
CHECK_DEADLOCK FALSE
