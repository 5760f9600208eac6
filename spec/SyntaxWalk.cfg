SPECIFICATION WSpec
CONSTANT StepsPerTransition = 120
CONSTANT Longest = 25
INVARIANT Whole
CHECK_DEADLOCK FALSE
