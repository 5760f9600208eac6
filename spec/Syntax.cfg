SPECIFICATION Spec
CONSTANT StepsPerTransition = 200
INVARIANT Closed
INVARIANT Nested
INVARIANT Ordered
CHECK_DEADLOCK FALSE
