SPECIFICATION Spec
CONSTANT Devs = 3
INVARIANT TableAgrees Exact Written
CHECK_DEADLOCK FALSE
