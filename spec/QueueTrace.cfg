SPECIFICATION TraceSpec
CONSTRAINT TraceConstraint
INVARIANT QueueBounded
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
