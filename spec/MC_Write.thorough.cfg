SPECIFICATION Spec
CONSTANT Calls = 4
INVARIANT ReadsBack InOrder
PROPERTY OnlyAppends
CHECK_DEADLOCK FALSE
