SPECIFICATION Spec
VIEW View
CONSTANTS
  BLOCK = 2
  N = 2
  MaxLen = 7
  MaxPiece = 7
  KeySizes = {0, 1}
  Bug = "none"
INVARIANT Rep
PROPERTY Ret
CHECK_DEADLOCK FALSE
