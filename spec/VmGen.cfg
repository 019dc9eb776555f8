SPECIFICATION Spec
VIEW View
INVARIANTS Frames NoDangling NamedErrors
CHECK_DEADLOCK FALSE
