SPECIFICATION Spec
CONSTANT Devs = 3
INVARIANT TableAgrees Exact
CHECK_DEADLOCK FALSE
