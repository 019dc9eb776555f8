SPECIFICATION Spec
INVARIANT Injective
INVARIANT Protected
PROPERTY Stable
CHECK_DEADLOCK FALSE
