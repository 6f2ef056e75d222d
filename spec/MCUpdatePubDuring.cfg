SPECIFICATION Spec
CONSTANTS
  MaxV = 2
  MaxT = 8
  Bad <- AllGood
  InPlace = FALSE
  NoResume = FALSE
  PubDuring = TRUE
INVARIANTS Converges
CHECK_DEADLOCK FALSE
