SPECIFICATION Spec
VIEW View
CONSTANTS
  BLOCK = 2
  LANES = 3
  OUT = 1
  MaxLen = 31
  MaxPiece = 31
  KeySizes = {0, 1}
  Bug = "none"
INVARIANTS Rep Ready
PROPERTIES Ret Counted Buffering
CHECK_DEADLOCK FALSE
