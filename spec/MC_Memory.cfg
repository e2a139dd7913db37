SPECIFICATION Spec
CONSTANT Ops = 4
CONSTANT LiveMax = 3
CONSTANT Kinds = {"ed", "ec", "rsa", "edsk", "ecsk"}
CONSTANT Hows = {0, 3, 8}
INVARIANT NothingLeft Own Intact AllWiped Scenario
CHECK_DEADLOCK FALSE
