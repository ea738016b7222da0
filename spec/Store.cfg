SPECIFICATION Spec
CONSTANTS
  Docs = {d1, d2}
  Fields = {f1}
  Terms = {t1, t2}
  MaxTf = 2
  BUG = "none"
INVARIANTS Derived MemAgrees DskAgrees SearchExact EachAgrees
PROPERTY Frame
CHECK_DEADLOCK FALSE
