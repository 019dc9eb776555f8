SPECIFICATION Spec
INVARIANTS RoundTrip Prefixes MsgRoundTrip MsgPrefixes
CHECK_DEADLOCK FALSE
