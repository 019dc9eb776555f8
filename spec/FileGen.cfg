SPECIFICATION Spec
INVARIANTS Kept ReadAll
PROPERTY Told
CHECK_DEADLOCK FALSE
