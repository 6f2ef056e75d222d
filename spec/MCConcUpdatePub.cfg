SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Start = "outdated"
  MaxPub = 3
  Naming = "own"
  Kills = FALSE
  MaxT = 60
INVARIANTS Whole
PROPERTIES Kept
CHECK_DEADLOCK FALSE
