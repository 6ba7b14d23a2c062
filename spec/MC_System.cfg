SPECIFICATION Spec
CONSTANTS MaxFrames = 2 Ats <- AtsDef Files <- FilesDef EstLists <- EstListsDef
INVARIANTS InOrderOfSetup FromTruth NearestUsed SameObject Seen Balance InRange SameLabelSameScore
PROPERTIES Settled
CHECK_DEADLOCK FALSE
