SPECIFICATION Spec
CONSTRAINT Shallow
INVARIANTS Same Numbers
CHECK_DEADLOCK FALSE
