SPECIFICATION Spec
VIEW View
CONSTANTS
  BLOCK = 2
  Ids = {1, 2}
  MaxLen = 5
  MaxPiece = 5
  KeySizes = {0, 1}
  Flags = {TRUE}
  Threads = FALSE
  Bug = "none"
INVARIANTS Rep InBounds
PROPERTIES Refines OneCall Isolated
CHECK_DEADLOCK FALSE
