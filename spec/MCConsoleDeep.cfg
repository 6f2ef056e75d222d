SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Answered Loaded Agree
PROPERTY Same
CHECK_DEADLOCK FALSE
