SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS AllOrError NoneAfterBad AgreesWithSpec Scenario
CHECK_DEADLOCK FALSE
