SPECIFICATION Spec
VIEW View
CONSTANTS
  Bug = "none"
INVARIANTS Packed Keyed InRange
PROPERTY Refuse
CHECK_DEADLOCK FALSE
