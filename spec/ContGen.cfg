SPECIFICATION Spec
INVARIANT Accounted
CHECK_DEADLOCK FALSE
