SPECIFICATION Spec
CONSTANTS
  MaxV = 2
  MaxT = 8
  Bad <- AllGood
  InPlace = TRUE
  NoResume = FALSE
  PubDuring = FALSE
INVARIANTS Whole
CHECK_DEADLOCK FALSE
