SPECIFICATION Spec
CONSTANT StepsPerTransition = 30
INVARIANT Bounded
INVARIANT Sound
CHECK_DEADLOCK FALSE
