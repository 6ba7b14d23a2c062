SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
VIEW Position
