SPECIFICATION Spec
CONSTANT StepsPerTransition = 15
INVARIANT Balanced
INVARIANT NoneInitializing
CHECK_DEADLOCK FALSE
