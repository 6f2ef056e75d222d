SPECIFICATION Spec
CONSTANTS
  Deaf = FALSE
  Live = TRUE
INVARIANTS
  True1
CHECK_DEADLOCK FALSE
