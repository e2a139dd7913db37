SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS WellFormed CommentsIgnored SpacesIgnored RoundTrip NothingLost Scenario
CHECK_DEADLOCK FALSE
