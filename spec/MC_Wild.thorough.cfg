SPECIFICATION Spec
CONSTANT Devs <- DeepDevs
CONSTANT Types <- DeepTypes
CONSTANT Stops = 2
INVARIANT Total Unsigned Understood Scenario
CHECK_DEADLOCK FALSE
