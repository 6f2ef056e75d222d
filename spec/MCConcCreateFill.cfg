SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  PerProc = 2
  Grow = 1
  FillLocked = FALSE
  TakeLocked = TRUE
INVARIANTS Stored
CHECK_DEADLOCK FALSE
