SPECIFICATION Spec
CONSTANTS
  MaxParts = 2
  Reader = "adding"
INVARIANTS ReadRight
CHECK_DEADLOCK FALSE
