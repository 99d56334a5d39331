SPECIFICATION Spec
CONSTANTS
  Cap = 16
  Emitting = TRUE
  Pieces = 2
INVARIANTS Room SoFar Agree Nothing Kept Sound Emit
CHECK_DEADLOCK FALSE
