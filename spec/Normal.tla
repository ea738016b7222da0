------------------------------- MODULE Normal -------------------------------
(* Normalising a list of words: each filter treats every word by itself. The *)
(* stemmer runs a worker per word, all at once; whatever the order in which  *)
(* they get done, word i of the result is the stem of word i.                *)
EXTENDS NormalCore, TLC
CONSTANTS Words, MaxLen, BUG
VARIABLES in, pc, out, main, k
vars == <<in, pc, out, main, k>>
(* Some function that is not the identity nor injective.                     *)
StemOf(w) == 10 + (IF w \in {1, 2} THEN 1 ELSE w)
Lists == UNION {[1..n -> Words] : n \in 0..MaxLen}
Init == /\ in \in Lists
        /\ pc = [i \in 1..Len(in) |-> "ready"]
        /\ out = [i \in 1..Len(in) |-> 0]
        /\ main = "spawning" /\ k = 0
Spawn == /\ main = "spawning"
         /\ IF k < Len(in) THEN k' = k + 1 /\ main' = main ELSE main' = "waiting" /\ k' = k
         /\ UNCHANGED <<in, pc, out>>
Least(S) == IF S = {} THEN 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
Work(i) ==
  /\ i <= k /\ pc[i] = "ready"
  /\ pc' = [pc EXCEPT ![i] = "done"]
  /\ LET j == IF BUG = "shared_index" THEN k ELSE i
         slot == IF BUG = "by_completion" THEN Least({x \in 1..Len(in) : out[x] = 0}) ELSE j
     IN out' = [out EXCEPT ![slot] = StemOf(in[j])]
  /\ UNCHANGED <<in, main, k>>
Return == /\ main = "waiting" /\ (BUG = "no_wait" \/ \A i \in 1..Len(in) : pc[i] = "done")
          /\ main' = "returned" /\ UNCHANGED <<in, pc, out, k>>
Over == main = "returned" /\ UNCHANGED vars
Next == Spawn \/ (main # "returned" /\ \E i \in 1..Len(in) : Work(i)) \/ Return \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == main = "returned" => out = Each([w \in Words |-> StemOf(w)], in)
Ends == <>(main = "returned")
=============================================================================
