SPECIFICATION Spec
CONSTANT Budget = 4
INVARIANT Accepted Exact
CHECK_DEADLOCK FALSE
