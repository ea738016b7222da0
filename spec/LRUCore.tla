------------------------------- MODULE LRUCore -------------------------------
(* An LRU cache as a sequence of [k, v], most recently used first.           *)
EXTENDS Naturals, Sequences
LFind(q, k) == {i \in 1..Len(q) : q[i].k = k}
LWithout(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
LGet(q, k) == IF LFind(q, k) = {} THEN q
              ELSE LET i == CHOOSE i \in LFind(q, k) : TRUE IN <<q[i]>> \o LWithout(q, i)
LPut(q, cap, k, v) ==
  IF LFind(q, k) # {}
  THEN LET i == CHOOSE i \in LFind(q, k) : TRUE IN <<[k |-> k, v |-> v]>> \o LWithout(q, i)
  ELSE IF cap <= 0 THEN q
  ELSE SubSeq(<<[k |-> k, v |-> v]>> \o q, 1, IF Len(q) + 1 > cap THEN cap ELSE Len(q) + 1)
LHit(q, k) == IF LFind(q, k) = {} THEN [ok |-> FALSE, v |-> 0]
              ELSE [ok |-> TRUE, v |-> q[CHOOSE i \in LFind(q, k) : TRUE].v]
=============================================================================
