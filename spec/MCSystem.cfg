SPECIFICATION Spec
CONSTANTS
  Deaf = FALSE
  Live = FALSE
INVARIANTS
  Fresh
  True1
CHECK_DEADLOCK FALSE
