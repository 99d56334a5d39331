SPECIFICATION Spec
CONSTANTS
  Profile = "dev"
  MaxCalls = 2
  Narrow = TRUE
  Emitting = TRUE
INVARIANTS Room Outcome Ends InTime Waits Sendable Fresh Sound Turn Left Either Emit
