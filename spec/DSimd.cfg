CONSTANTS
  Bug = "none"
SPECIFICATION Spec
INVARIANTS Mixed Done
CHECK_DEADLOCK FALSE
