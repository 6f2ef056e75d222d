SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Start = "outdated"
  MaxPub = 2
  Naming = "place"
  Kills = FALSE
  MaxT = 60
INVARIANTS Whole

CHECK_DEADLOCK FALSE
