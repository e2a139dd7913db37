SPECIFICATION Spec
CONSTANT Ops = 3
CONSTANT Makes = 2
CONSTANT Msgs = {"m", ""}
CONSTANT Nss = {"file"}
INVARIANT RoundTrips Asked OnlyOwn Unusable Named Scenario
CHECK_DEADLOCK FALSE
