SPECIFICATION CSpec
CONSTANT StepsPerTransition = 10
INVARIANT Heights
CHECK_DEADLOCK FALSE
