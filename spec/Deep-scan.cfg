SPECIFICATION Spec
CONSTANTS
  Profile = "scan"
  MaxCalls = 1
  Narrow = FALSE
  Emitting = TRUE
INVARIANTS Room Outcome Ends InTime Waits Sendable Fresh Sound Turn Left Either Emit
