SPECIFICATION Spec
CONSTANTS
  Kind = "c8"
  Elems = {1, 2}
  MaxLen = 3
  Cap = 3
  Wrapping = TRUE
INVARIANTS AnswersOK
CHECK_DEADLOCK FALSE
