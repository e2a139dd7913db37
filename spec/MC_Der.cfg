SPECIFICATION Spec
CONSTANT N = 8
CONSTANT Kinds <- AllKinds
INVARIANT ReadIsWritten Table Scenario
CHECK_DEADLOCK FALSE
