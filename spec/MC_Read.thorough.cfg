SPECIFICATION Spec
CONSTANT Parts = 4
VIEW View
INVARIANT Shown InBounds Exact Complete Local
CHECK_DEADLOCK FALSE
