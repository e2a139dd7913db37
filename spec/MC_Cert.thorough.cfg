SPECIFICATION Spec
CONSTANT Devs = 3
INVARIANT TableAgrees AllSigned
CHECK_DEADLOCK FALSE
