SPECIFICATION Spec
CONSTANTS
  Letters = {0, 1, 253, 255}
  Longest = 6
  Emitting = TRUE
  Ids = {0, 253, 255}
INVARIANTS NeverAHeader Rule Faithful Minimal OneHeader Detects Emit
CHECK_DEADLOCK FALSE
