SPECIFICATION Spec
CONSTANTS
  MaxCalls = 3
  MaxFaults = 1
  Late = FALSE
  Emitting = TRUE
INVARIANTS Executes Reliable Recovers Written Held ReadBack SyncBack InOrder Emit
