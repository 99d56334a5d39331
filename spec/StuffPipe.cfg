SPECIFICATION Spec
INVARIANTS Faithful NeverAHeader Rule
CHECK_DEADLOCK FALSE
