SPECIFICATION Spec
CONSTANT Calls = 2
CONSTANT Breaks = 1
CONSTANT Wide = TRUE
CONSTANT Menu = {"gen", "sign", "env"}
INVARIANT Kept OneTry NoTryLost PinThere Touched SignedRight OnlyAttested Scenario
CHECK_DEADLOCK FALSE
