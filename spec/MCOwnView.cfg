SPECIFICATION Spec
CONSTANTS
  Locs = {p1, p2, p3, p4, p5}
  Values = {u, v, w}
  Keep = "copy"
  Give = "view"
  MaxStored = 3
INVARIANTS Kept OneEach Steady
CHECK_DEADLOCK FALSE
