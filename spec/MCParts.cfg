SPECIFICATION Spec
CONSTANTS
  MaxParts = 2
  Reader = "exact"
INVARIANTS  Together ReadRight CutNoticed
CHECK_DEADLOCK FALSE
