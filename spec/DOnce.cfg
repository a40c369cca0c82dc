SPECIFICATION Spec
CONSTANTS
  BLOCK = 2
  N = 3
  MaxLen = 6
  KeySizes = {0, 1}
  Bug = "none"
INVARIANT Right
CHECK_DEADLOCK FALSE
