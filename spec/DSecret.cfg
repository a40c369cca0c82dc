SPECIFICATION Spec
VIEW View
CONSTANTS
  BLOCK = 2
  MaxLen = 4
  KeySizes = {0, 1}
  Bug = "none"
INVARIANTS SameDebug SameShape
PROPERTY SameSteps
CHECK_DEADLOCK FALSE
