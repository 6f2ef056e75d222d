SPECIFICATION Spec
CONSTANTS
  MaxParts = 2
  Reader = "ahead"
INVARIANTS ReadRight
CHECK_DEADLOCK FALSE
