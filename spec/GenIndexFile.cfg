SPECIFICATION GSpec
CONSTANTS
  Handles <- GHandles2
  Files <- GFiles
  Names <- GNames1
  Parents <- GParents
  Words <- GWords
  MaxSet = 1
  Lim <- GLim
  NoDict = NoDict
  Depth = 6
  MaxNodes = 2
  MaxAtt = 1
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
