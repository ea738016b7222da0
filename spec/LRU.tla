--------------------------------- MODULE LRU ---------------------------------
(* The LRU cache as it is built (cache/LRU.go): a map from keys to places in *)
(* a list. Checked against its meaning, which is derived from the history of *)
(* calls alone: the most recently used keys, each with the value last put.   *)
EXTENDS Integers, Sequences, FiniteSets, LRUCore, TLC
CONSTANTS Keys, Caps, MaxOps, BUG
VARIABLES cap, list, hist
vars == <<cap, list, hist>>
Init == cap \in Caps \cup {0 - 1} /\ list = <<>> /\ hist = <<>>

ToFront(i) == <<list[i]>> \o LWithout(list, i)
At(k) == LFind(list, k)
Get(k) == /\ hist' = Append(hist, [op |-> "get", k |-> k, ok |-> At(k) # {}, v |-> LHit(list, k).v])
          /\ list' = IF At(k) = {} \/ BUG = "get_no_move" THEN list ELSE ToFront(CHOOSE i \in At(k) : TRUE)
          /\ UNCHANGED cap
Put(k) ==
  LET v == Len(hist) + 1
      new == [k |-> k, v |-> v] IN
  /\ hist' = Append(hist, [op |-> "put", k |-> k, ok |-> TRUE, v |-> v])
  /\ list' =
       IF At(k) # {}
       THEN LET i == CHOOSE i \in At(k) : TRUE IN
            IF BUG = "put_no_move" THEN [list EXCEPT ![i] = new]
            ELSE IF BUG = "put_keeps_value" THEN ToFront(i)
            ELSE [ToFront(i) EXCEPT ![1] = new]
       ELSE IF cap <= 0 THEN list
       ELSE LET room == IF Len(list) >= cap
                        THEN (IF BUG = "evict_front" THEN Tail(list)
                              ELSE IF BUG = "evict_late" THEN list ELSE SubSeq(list, 1, Len(list) - 1))
                        ELSE list
            IN <<new>> \o room
  /\ UNCHANGED cap
Next == Len(hist) < MaxOps /\ \E k \in Keys : Get(k) \/ Put(k)
Spec == Init /\ [][Next]_vars

(* From the history alone.                                                   *)
RECURSIVE Used(_)
Used(n) == \* the distinct keys by their last use, most recent first, after n calls
  IF n = 0 THEN <<>>
  ELSE LET c == hist[n]
           before == Used(n - 1)
           known == \E i \in 1..Len(before) : before[i] = c.k
       IN IF c.op = "get" /\ ~c.ok THEN before
          ELSE <<c.k>> \o SelectSeq(before, LAMBDA x : x # c.k)
LastPut(k) == LET P == {i \in 1..Len(hist) : hist[i].op = "put" /\ hist[i].k = k} IN
              hist[CHOOSE i \in P : \A j \in P : j <= i].v
Expected == LET u == Used(Len(hist))
                n == IF cap <= 0 THEN 0 ELSE IF Len(u) > cap THEN cap ELSE Len(u)
            IN [i \in 1..n |-> [k |-> u[i], v |-> LastPut(u[i])]]
Meaning == list = Expected
(* The operators the trace specifications use say the same.                  *)
RECURSIVE Replay(_)
Replay(n) == IF n = 0 THEN <<>>
             ELSE IF hist[n].op = "get" THEN LGet(Replay(n-1), hist[n].k)
             ELSE LPut(Replay(n-1), cap, hist[n].k, hist[n].v)
CoreAgrees == Replay(Len(hist)) = Expected
=============================================================================
