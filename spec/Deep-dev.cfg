SPECIFICATION Spec
CONSTANTS
  Profile = "dev"
  MaxCalls = 2
  Narrow = FALSE
  Emitting = TRUE
INVARIANTS Room Outcome Ends InTime Waits Sendable Fresh Sound Turn Left Either Emit
