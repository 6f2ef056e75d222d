SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  PerProc = 2
  Grow = 1
  FillLocked = TRUE
  TakeLocked = TRUE
INVARIANTS Distinct Consecutive Stored
PROPERTY Finish
CHECK_DEADLOCK FALSE
