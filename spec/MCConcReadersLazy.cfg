SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  PerProc = 2
  Lazy = TRUE
INVARIANTS NoConflict
CHECK_DEADLOCK FALSE
