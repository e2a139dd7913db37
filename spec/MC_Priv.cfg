SPECIFICATION Spec
CONSTANT Devs = 2
INVARIANT TableAgrees Exact Written
CHECK_DEADLOCK FALSE
