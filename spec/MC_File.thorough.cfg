SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS AllOrError NoneAfterBad AgreesWithSpec Scenario
CHECK_DEADLOCK FALSE
