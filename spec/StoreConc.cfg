SPECIFICATION Spec
CONSTANTS
 Stale = FALSE
 Writers = {w1, w2}
 Searchers = {s1}
 Terms = {t1, t2}
 MaxSaves = 3
 MaxSearches = 1
 MaxTicks = 1
 BUG = "none"
INVARIANTS Consistent OneInside Answer
