SPECIFICATION Spec
CONSTANTS MaxFrames = 2 TaskKinds <- TaskKindsDef LabelLists <- LabelListsDef EstLists <- EstListsDef GTLists <- GTListsDef
INVARIANTS AlwaysEvaluates Balance InRange PerfectIsOne SilentIsZero OrderFree Repeatable
PROPERTIES AppendOnly
CHECK_DEADLOCK FALSE
