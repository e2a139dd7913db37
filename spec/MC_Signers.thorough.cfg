SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS WellFormed CommentsIgnored SpacesIgnored RoundTrip NothingLost Scenario
CHECK_DEADLOCK FALSE
