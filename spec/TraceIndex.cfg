SPECIFICATION TraceSpec
CONSTANTS
  Handles = {"", "A", "B", "C"}
  Files = {"f", "g", "c"}
  Names = {}
  Parents = {}
  Words = {}
  MaxSet = 0
  Lim <- TraceLim
  NoDict = NoDict
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
