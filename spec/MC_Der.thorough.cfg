SPECIFICATION Spec
CONSTANT N = 10
CONSTANT Kinds <- AllKinds
INVARIANT ReadIsWritten Table Scenario
CHECK_DEADLOCK FALSE
