SPECIFICATION Spec
CONSTANT Devs = 3
CONSTANT Whats = {"piv"}
INVARIANT Sound PivSays FidoSays
CHECK_DEADLOCK FALSE
