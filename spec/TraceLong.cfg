SPECIFICATION Spec
VIEW Line
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
