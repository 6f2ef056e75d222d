SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Start = "unpacked"
  MaxPub = 2
  Naming = "own"
  Kills = TRUE
  MaxT = 60
INVARIANTS Whole Together Completes
PROPERTIES Kept Forward
CHECK_DEADLOCK FALSE
