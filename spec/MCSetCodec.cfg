SPECIFICATION Spec
CONSTANTS
  Width = 2
  MaxLen = 3
  Byte = {0, 1}
  Tails <- MCTails
  Filling = TRUE
INVARIANTS Exact Refused
PROPERTY Ends
CHECK_DEADLOCK FALSE
