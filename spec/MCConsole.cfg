SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Answered Loaded Agree
PROPERTY Same
CHECK_DEADLOCK FALSE
