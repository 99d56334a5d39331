SPECIFICATION Spec
CONSTANTS
  Letters = {0, 1, 253, 255}
  Longest = 9
  Emitting = FALSE
  Ids = {0, 253, 255}
INVARIANTS NeverAHeader Rule Faithful Minimal
CHECK_DEADLOCK FALSE
