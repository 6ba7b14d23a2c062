SPECIFICATION Spec
CONSTANTS
  N = 3
  Steps = 5
INVARIANT Independent
CHECK_DEADLOCK FALSE
