SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  PerProc = 2
  Lazy = FALSE
INVARIANTS NoConflict AsAlone Unchanged
PROPERTY Returns
CHECK_DEADLOCK FALSE
