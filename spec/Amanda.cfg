SPECIFICATION Spec
CONSTANT StepsPerTransition = 60
INVARIANT WellTyped
INVARIANT Bounded
INVARIANT Tidy
CHECK_DEADLOCK FALSE
