SPECIFICATION TraceSpec
INVARIANT ParamShapes
PROPERTY RefusedKeeps
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
