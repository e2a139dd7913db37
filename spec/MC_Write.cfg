SPECIFICATION Spec
CONSTANT Calls = 3
INVARIANT ReadsBack InOrder
PROPERTY OnlyAppends
CHECK_DEADLOCK FALSE
