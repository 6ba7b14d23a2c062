SPECIFICATION Spec
CONSTANTS NE = 2  NG = 3  D = 2
INVARIANTS OneToOneAlways LabelAlways FinalOutcome GreedyIsStable
PROPERTIES NonDecreasing Terminates
CHECK_DEADLOCK FALSE
