SPECIFICATION SSpec
CONSTANTS
  Handles <- MCHandles2
  Files <- MCNoFiles
  Names <- MCNames
  Parents <- MCParents
  Words <- MCWords2
  MaxSet = 2
  Lim <- MCLim
  NoFile = NoFile
  MaxNodes = 2
  MaxVars = 4
  MaxSteps = 3
  AnyOrder = TRUE
  Filled = TRUE
CONSTRAINTS Short Ordered
INVARIANT SameBytes
CHECK_DEADLOCK FALSE
