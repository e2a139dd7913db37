SPECIFICATION Spec
CONSTANT Ops = 4
CONSTANT Threads = {1, 2}
CONSTANT Fields = {"serial", "id", "exs"}
INVARIANT Steady Fresh Counted Scenario
PROPERTY SteadyStep
CHECK_DEADLOCK FALSE
