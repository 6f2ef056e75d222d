SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  PerProc = 2
  Grow = 1
  FillLocked = TRUE
  TakeLocked = FALSE
INVARIANTS Distinct
CHECK_DEADLOCK FALSE
