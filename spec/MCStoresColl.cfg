SPECIFICATION Spec
CONSTANTS
  Kind = "c8"
  Elems = {1, 2}
  MaxLen = 3
  Cap = 3
  Wrapping = FALSE
INVARIANTS AnswersOK OneToOne FindsOK GetsOK
PROPERTIES Stable
CHECK_DEADLOCK FALSE
