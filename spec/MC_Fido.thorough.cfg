SPECIFICATION Spec
CONSTANT Devs = 4
CONSTANT Whats = {"fido"}
INVARIANT Sound PivSays FidoSays
CHECK_DEADLOCK FALSE
