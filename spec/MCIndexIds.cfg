SPECIFICATION Spec
CONSTANTS
  Handles <- MCHandles
  Files <- MCNoFiles
  Names <- MCNames
  Parents <- MCParents
  Words <- MCWords2
  MaxSet = 2
  Lim <- MCLim
  NoFile = NoFile
  MaxNodes = 2
  MaxVars = 2
INVARIANTS SimOK StoresOK ChainOK
PROPERTIES StableSets StableVars
CHECK_DEADLOCK FALSE
