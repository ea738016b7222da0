SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "b", "c"}
  Caps = {0, 1, 2, 3}
  MaxOps = 5
  BUG = "none"
INVARIANTS Meaning CoreAgrees
CHECK_DEADLOCK FALSE
