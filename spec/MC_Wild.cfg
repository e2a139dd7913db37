SPECIFICATION Spec
CONSTANT Devs <- QuickDevs
CONSTANT Types <- QuickTypes
CONSTANT Stops = 1
INVARIANT Total Unsigned Understood Scenario
CHECK_DEADLOCK FALSE
