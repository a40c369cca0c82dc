SPECIFICATION Spec
VIEW View
CONSTANTS
  BLOCK = 2
  Ids = {1, 2}
  MaxLen = 4
  MaxPiece = 4
  KeySizes = {0, 1}
  Flags = {TRUE}
  Threads = TRUE
  Bug = "none"
INVARIANTS Rep InBounds
PROPERTIES Refines OneCall Isolated
CHECK_DEADLOCK FALSE
