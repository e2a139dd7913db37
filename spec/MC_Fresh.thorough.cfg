SPECIFICATION Spec
CONSTANT Ops = 4
CONSTANT Threads = {1, 2, 3}
CONSTANT Fields = {"serial", "id", "exs", "ex", "cr", "pr", "va", "vb"}
INVARIANT Steady Fresh Counted Scenario
PROPERTY SteadyStep
CHECK_DEADLOCK FALSE
