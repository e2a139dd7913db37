SPECIFICATION Spec
CONSTANT Calls = 5
CONSTANT Threads = {1, 2, 3}
CONSTANT Questions = {1, 2, 3}
INVARIANT OneAnswer Scenario
CHECK_DEADLOCK FALSE
