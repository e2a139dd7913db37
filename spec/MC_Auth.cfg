SPECIFICATION Spec
CONSTANT Budget = 3
INVARIANT Accepted Exact
CHECK_DEADLOCK FALSE
