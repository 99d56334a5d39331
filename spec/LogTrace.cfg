SPECIFICATION SpecLog
INVARIANT Conforms
CHECK_DEADLOCK FALSE
