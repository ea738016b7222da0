SPECIFICATION Spec
CONSTANTS
 Terms = {t1, t2}
 Docs = {d1, d2, d3}
 Slots = 2
 Cap = 2
 Batches = 2
 BUG = "none"
INVARIANTS Answer NothingLeft SlotsKept
PROPERTY Ends
