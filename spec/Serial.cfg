SPECIFICATION Spec
CONSTANTS
 Values = {1, 2}
 MaxOps = 6
 BUG = "none"
INVARIANT Right
CHECK_DEADLOCK FALSE
