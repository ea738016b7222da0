SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "b"}
  Writers = {"w1", "w2"}
  PERIOD = 2
  BOUND = 2
  Cap = 1
  MaxPuts = 3
  MaxClock = 6
  BUG = "none"
INVARIANTS OwnValues Timely
PROPERTY NeverBack
CHECK_DEADLOCK FALSE
