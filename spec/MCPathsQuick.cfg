SPECIFICATION Spec
CONSTANTS
  Comps <- MCComps
  MaxEntries = 2
  MaxLen = 3
INVARIANTS Parted Idem Made Tree
CHECK_DEADLOCK FALSE
