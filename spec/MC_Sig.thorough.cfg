SPECIFICATION Spec
CONSTANT Devs = 3
INVARIANT VerdictIsRight
CHECK_DEADLOCK FALSE
