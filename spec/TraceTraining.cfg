SPECIFICATION TraceSpec
INVARIANTS OncePerEpoch AtMostABatch PointOwnsSlot
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
