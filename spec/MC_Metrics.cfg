SPECIFICATION Spec
CONSTANTS N = 5  GMax = 4  Weights <- WeightsDef
INVARIANTS BestByDefinition Range01 NaNOnlyWhenEmpty APHBelowAP ByRecall Perfect Nothing Opposite BetterFirst
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
