SPECIFICATION Spec
CONSTANTS
  Elems = {1, 2}
  MaxLen = 3
  MaxStored = 5
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
