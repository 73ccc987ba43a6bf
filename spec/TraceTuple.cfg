SPECIFICATION TraceSpec
CONSTANT Layouts <- TraceLayouts
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
