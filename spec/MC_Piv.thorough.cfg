SPECIFICATION Spec
CONSTANT Devs = 4
CONSTANT Whats = {"piv"}
INVARIANT Sound PivSays FidoSays
CHECK_DEADLOCK FALSE
