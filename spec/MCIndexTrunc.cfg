SPECIFICATION Spec
CONSTANTS
  Handles <- MCHandles
  Files <- MCNoFiles
  Names <- MCNames
  Parents <- MCParents2
  Words <- MCWords2
  MaxSet = 1
  Lim <- MCLim
  NoFile = NoFile
  MaxNodes = 2
  MaxVars = 2
INVARIANTS SimOK FitsOK KidsOK LookupOK WordsOK StoresOK CompactOK CodecOK SizeOK TruncOK
PROPERTIES Frame
CHECK_DEADLOCK FALSE
