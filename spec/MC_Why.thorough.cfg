SPECIFICATION Spec
CONSTANT Devs = 3
INVARIANTS Reasoned Clean Spoiled Truthful
CHECK_DEADLOCK FALSE
