SPECIFICATION Spec
CONSTANTS
  Deaf = TRUE
  Live = FALSE
INVARIANTS
  Fresh
CHECK_DEADLOCK FALSE
