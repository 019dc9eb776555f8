SPECIFICATION Spec
VIEW View
INVARIANTS OnTheWay StopsThere PassesNone EndsOrStops NoDuplicates
CHECK_DEADLOCK FALSE
