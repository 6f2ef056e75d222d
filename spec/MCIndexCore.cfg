SPECIFICATION Spec
CONSTANTS
  Handles <- MCHandles
  Files <- MCNoFiles
  Names <- MCNames
  Parents <- MCParents
  Words <- MCWords2
  MaxSet = 2
  Lim <- MCLim
  NoFile = NoFile
  MaxNodes = 2
  MaxVars = 2
INVARIANTS SimOK FitsOK KidsOK LookupOK WordsOK StoresOK CompactOK
PROPERTIES Frame
CHECK_DEADLOCK FALSE
