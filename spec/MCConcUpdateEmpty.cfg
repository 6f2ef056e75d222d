SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Start = "empty"
  MaxPub = 2
  Naming = "own"
  Kills = TRUE
  MaxT = 60
INVARIANTS Whole Together Completes
PROPERTIES Kept Forward
CHECK_DEADLOCK FALSE
