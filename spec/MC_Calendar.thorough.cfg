SPECIFICATION Spec
CONSTANT Eras <- Thorough
INVARIANT EveryDay NoSuchMonth Ends Scenario
CHECK_DEADLOCK FALSE
