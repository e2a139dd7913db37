SPECIFICATION Spec
CONSTANT Devs = 2
INVARIANT VerdictIsRight
CHECK_DEADLOCK FALSE
