SPECIFICATION Spec
CONSTANT Devs = 2
INVARIANT TableAgrees AllSigned
CHECK_DEADLOCK FALSE
