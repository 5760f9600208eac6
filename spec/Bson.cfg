SPECIFICATION Spec
CONSTANT StepsPerTransition = 200
INVARIANT RoundTrip
INVARIANT Within
CHECK_DEADLOCK FALSE
