CONSTANT K = 2
SPECIFICATION Spec
INVARIANTS Bounded Verdict
PROPERTY Ends
CHECK_DEADLOCK FALSE
