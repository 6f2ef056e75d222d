SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  PerProc = 1
  Lazy = FALSE
INVARIANTS NoConflict AsAlone Unchanged
CHECK_DEADLOCK FALSE
