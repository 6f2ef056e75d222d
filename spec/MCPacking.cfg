SPECIFICATION Spec
CONSTANT Base = 256
INVARIANTS Halved InRange Whole
CHECK_DEADLOCK FALSE
