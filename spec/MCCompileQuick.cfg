SPECIFICATION Spec
CONSTANTS
  MaxMisc = 0
  Mode = "check"
INVARIANTS Right Whole
CHECK_DEADLOCK FALSE
