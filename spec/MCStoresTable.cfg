SPECIFICATION Spec
CONSTANTS
  Kind = "t8"
  Elems = {1, 2}
  MaxLen = 3
  Cap = 4
  Wrapping = FALSE
INVARIANTS AnswersOK OneToOne FindsOK GetsOK
PROPERTIES Stable
CHECK_DEADLOCK FALSE
