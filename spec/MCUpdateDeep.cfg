SPECIFICATION Spec
CONSTANTS
  MaxV = 4
  MaxT = 22
  Bad <- SomeBad
  InPlace = FALSE
  NoResume = FALSE
  PubDuring = FALSE
INVARIANTS Whole Outcome Converges Settles
PROPERTIES Kept
CHECK_DEADLOCK FALSE
