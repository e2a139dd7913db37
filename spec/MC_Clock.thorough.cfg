SPECIFICATION Spec
CONSTANT Years <- MoreYears
CONSTANT Step = 300
INVARIANT OnTheClock AtMostTwo Scenario
CHECK_DEADLOCK FALSE
