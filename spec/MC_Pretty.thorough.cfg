SPECIFICATION Spec
CONSTANT Devs = 3
CONSTANT Near = 3
INVARIANT TellsTheTruth TellsApart Forever Scenario
CHECK_DEADLOCK FALSE
