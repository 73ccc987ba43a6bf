SPECIFICATION TraceSpec
CONSTANT Keyrings <- TraceKeyrings
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
