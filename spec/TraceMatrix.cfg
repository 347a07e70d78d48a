SPECIFICATION TraceSpec
INVARIANT ShapesAgree
PROPERTY RefusedNoChange
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
