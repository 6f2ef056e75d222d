SPECIFICATION Spec
CONSTANTS
  Handles <- MCHandles2
  Files <- MCFiles
  Names <- MCOne
  Parents <- MCParents2
  Words <- MCWords2
  MaxSet = 1
  Lim <- MCLim
  NoFile = NoFile
  MaxNodes = 2
  MaxVars = 2
INVARIANTS SimOK FitsOK KidsOK LookupOK WordsOK StoresOK CompactOK CodecOK SizeOK 
PROPERTIES Frame
CHECK_DEADLOCK FALSE
