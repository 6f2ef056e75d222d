SPECIFICATION Spec
CONSTANTS
  Locs = {p1, p2, p3, p4, p5}
  Values = {u, v, w}
  Keep = "share"
  Give = "copy"
  MaxStored = 2
INVARIANTS Kept
CHECK_DEADLOCK FALSE
