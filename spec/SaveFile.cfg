SPECIFICATION Spec
CONSTANTS
  Savers = {"a", "b"}
  BUG = "none"
  MaxFaults = 2
  MaxCrashes = 1
INVARIANTS AlwaysWhole Truthful Settled
PROPERTY NeverLost
CHECK_DEADLOCK FALSE
