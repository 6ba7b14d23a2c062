SPECIFICATION Spec
CONSTANTS Turns <- TurnsDef  Heights = {0,1,3}
CHECK_DEADLOCK FALSE
