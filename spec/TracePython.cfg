SPECIFICATION PySpec
CONSTANT Keyrings <- TraceKeyrings
CONSTANT ev <- PyEvent
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
