SPECIFICATION Spec
CONSTANTS
  MaxParts = 2
  Reader = "padding"
INVARIANTS CutNoticed
CHECK_DEADLOCK FALSE
