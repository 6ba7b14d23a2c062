SPECIFICATION Spec
CONSTANT Second <- Few
CHECK_DEADLOCK FALSE
