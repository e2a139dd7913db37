SPECIFICATION Spec
CONSTANT Devs = 2
INVARIANTS Reasoned Clean Spoiled Truthful
CHECK_DEADLOCK FALSE
