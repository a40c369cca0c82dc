SPECIFICATION Spec
VIEW View
CONSTANTS
  BLOCK = 3
  Ids = {1}
  MaxLen = 13
  MaxPiece = 13
  KeySizes = {0, 2, 3}
  Flags = {FALSE, TRUE}
  Threads = FALSE
  Bug = "none"
INVARIANTS Rep InBounds
PROPERTIES Refines OneCall Isolated
CHECK_DEADLOCK FALSE
