SPECIFICATION Spec
CONSTANTS
  MaxV = 2
  MaxT = 8
  Bad <- AllGood
  InPlace = FALSE
  NoResume = TRUE
  PubDuring = FALSE
INVARIANTS Converges
CHECK_DEADLOCK FALSE
