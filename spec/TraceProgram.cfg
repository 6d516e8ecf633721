SPECIFICATION Spec
INVARIANT Conforms
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
