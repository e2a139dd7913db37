SPECIFICATION Spec
CONSTANT Devs = 2
INVARIANT TableAgrees FieldsExact RoundTrip CommentOnly
CHECK_DEADLOCK FALSE
