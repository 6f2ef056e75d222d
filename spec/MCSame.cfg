SPECIFICATION SSpec
CONSTANTS
  Handles <- MCHandles2
  Files <- MCFiles
  Names <- MCNames
  Parents <- MCParents
  Words <- MCWords2
  MaxSet = 1
  Lim <- MCLim
  NoFile = NoFile
  MaxNodes = 2
  MaxVars = 4
  MaxSteps = 4
  AnyOrder = FALSE
  Filled = FALSE
CONSTRAINTS Short Ordered
INVARIANTS SameBytes Agree
CHECK_DEADLOCK FALSE
