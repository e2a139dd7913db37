SPECIFICATION Spec
CONSTANT Devs = 3
CONSTANT Whats = {"fido"}
INVARIANT Sound PivSays FidoSays
CHECK_DEADLOCK FALSE
