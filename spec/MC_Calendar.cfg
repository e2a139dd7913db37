SPECIFICATION Spec
CONSTANT Eras <- Quick
INVARIANT EveryDay NoSuchMonth Ends Scenario
CHECK_DEADLOCK FALSE
