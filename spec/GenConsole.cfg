SPECIFICATION GenSpec
CONSTANT Deep = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
