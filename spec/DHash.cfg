SPECIFICATION Spec
CONSTANTS
  OUT = 2
  BASE = 2
  Bug = "none"
INVARIANTS Right Text
CHECK_DEADLOCK FALSE
