SPECIFICATION Spec
INVARIANTS OneLabel LabelsShowThemselves TasksUnique FramesUnique ShownIsAccepted Disjoint
PROPERTIES CaseIsIgnored
CHECK_DEADLOCK FALSE
