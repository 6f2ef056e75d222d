SPECIFICATION Spec
CONSTANTS
  MaxMisc = 1
  Mode = "check"
INVARIANTS Right Whole
CHECK_DEADLOCK FALSE
