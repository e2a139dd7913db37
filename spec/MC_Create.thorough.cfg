SPECIFICATION Spec
CONSTANT Ops = 3
CONSTANT Makes = 2
CONSTANT Msgs = {"m", "", "n"}
CONSTANT Nss = {"file", "git"}
INVARIANT RoundTrips Asked OnlyOwn Unusable Named Scenario
CHECK_DEADLOCK FALSE
