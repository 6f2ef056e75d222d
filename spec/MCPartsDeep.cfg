SPECIFICATION Spec
CONSTANTS
  MaxParts = 3
  Reader = "exact"
INVARIANTS  Together ReadRight CutNoticed
CHECK_DEADLOCK FALSE
