SPECIFICATION Spec
CONSTANT Parts = 3
VIEW View
INVARIANT Shown InBounds Exact Complete Local
CHECK_DEADLOCK FALSE
