SPECIFICATION Spec
CONSTANT Devs = 4
INVARIANT TableAgrees Exact
CHECK_DEADLOCK FALSE
