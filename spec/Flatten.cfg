SPECIFICATION Spec
CONSTANTS
 Keys = {"", "a"}
 Depth = 3
 BUG = "none"
INVARIANT Right
CHECK_DEADLOCK FALSE
