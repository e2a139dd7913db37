SPECIFICATION Spec
CONSTANT Calls = 2
CONSTANT Breaks = 1
CONSTANT Keeps = {TRUE, FALSE}
CONSTANT Policies <- SomePolicies
CONSTANT Menu = {"unlock", "provision", "sign_data", "signer", "csr", "attest", "write", "fetch_pub", "reconnect", "env"}
INVARIANT Kept OnlyThere OneTry UsedRightly Trusted AsAsked Scenario
CHECK_DEADLOCK FALSE
