SPECIFICATION Spec
CONSTANTS
  MaxV = 3
  MaxT = 14
  Bad <- AllGood
  InPlace = FALSE
  NoResume = FALSE
  PubDuring = FALSE
INVARIANTS Whole Outcome Converges Settles
PROPERTIES Kept
CHECK_DEADLOCK FALSE
