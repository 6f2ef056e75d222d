SPECIFICATION Spec
CONSTANTS
  Handles <- MCHandles
  Files <- MCFiles
  Names <- MCNames
  Parents <- MCParents
  Words <- MCWords2
  MaxSet = 2
  Lim <- MCLimSmall
  NoFile = NoFile
  MaxNodes = 1
  MaxVars = 2
INVARIANTS SimOK FitsOK KidsOK LookupOK WordsOK StoresOK CompactOK CodecOK SizeOK
PROPERTIES Frame
CHECK_DEADLOCK FALSE
