SPECIFICATION Spec
CONSTANTS
  Width = 2
  MaxLen = 3
  Byte = {0, 1}
  Tails <- MCTails
  Filling = FALSE
INVARIANTS Exact Refused
CHECK_DEADLOCK FALSE
