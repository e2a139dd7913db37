SPECIFICATION Spec
INVARIANT Recognised OneToOne
CHECK_DEADLOCK FALSE
