SPECIFICATION Spec
CONSTANTS
 Classes = {"L", "N", "Q", "S", "P", "M", "C", "X"}
 MaxLen = 4
 BUG = "none"
INVARIANTS Right Covers Emit
CHECK_DEADLOCK FALSE
