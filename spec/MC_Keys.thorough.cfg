SPECIFICATION Spec
CONSTANT Devs = 3
INVARIANT TableAgrees FieldsExact RoundTrip CommentOnly
CHECK_DEADLOCK FALSE
