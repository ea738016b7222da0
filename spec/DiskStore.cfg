SPECIFICATION Spec
CONSTANTS
  Docs = {d1}
  Fields = {f1, f2}
  Terms = {t1}
  PARTS = {"D"}
  BUG = "none"
  PM = 2
  PN = 2
  PD = 2
  PI = 2
  PG = 3
  W = 3
  MaxSaves = 3
  MaxClock = 6
  MaxCrashes = 1
  MaxFaults = 0
INVARIANTS Recoverable ReadsLatest MergedInTime
PROPERTY DurableStays
CHECK_DEADLOCK FALSE
