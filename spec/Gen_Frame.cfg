SPECIFICATION Spec
CONSTANTS NE = 2  NG = 2  Far = 2
CHECK_DEADLOCK FALSE
