SPECIFICATION GSpec
CONSTANTS
  Handles <- GHandles
  Files <- GNoFiles
  Names <- GNames
  Parents <- GParents
  Words <- GWords
  MaxSet = 2
  Lim <- GLim
  NoDict = NoDict
  Depth = 6
  MaxNodes = 3
  MaxAtt = 3
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
