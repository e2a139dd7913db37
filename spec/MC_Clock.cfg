SPECIFICATION Spec
CONSTANT Years <- QuickYears
CONSTANT Step = 900
INVARIANT OnTheClock AtMostTwo Scenario
CHECK_DEADLOCK FALSE
