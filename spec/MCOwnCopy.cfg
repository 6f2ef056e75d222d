SPECIFICATION Spec
CONSTANTS
  Locs = {p1, p2, p3, p4, p5}
  Values = {u, v, w}
  Keep = "copy"
  Give = "copy"
  MaxStored = 3
INVARIANTS Kept OneEach
CHECK_DEADLOCK FALSE
