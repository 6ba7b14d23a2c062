SPECIFICATION Spec
CONSTANT Odd <- OddDef
CHECK_DEADLOCK FALSE
