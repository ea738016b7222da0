----------------------------- MODULE FlattenGen -----------------------------
(* Objects and ids, drawn by TLC's simulator.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, Randomization
P == JsonDeserialize(IOEnv.PROFILE)
VARIABLES hist, u
vars == <<hist, u>>
Pick(q) == q[RandomElement(1..Len(q))]
Min(a, b) == IF a < b THEN a ELSE b
Kinds == <<"null", "true", "false", "num", "num", "str", "str", "list", "listobj", "nothing">>
RECURSIVE Tree(_)
Tree(d) == LET n == Pick(u.p.widths)
               K == RandomSubset(Min(n, u.p.nk), 1..u.p.nk)
               RECURSIVE Go(_)
               Go(S) == IF S = {} THEN <<>>
                        ELSE LET k == CHOOSE x \in S : TRUE
                             IN <<[key |-> k,
                                   val |-> IF d > 0 /\ RandomElement(1..3) > 1 THEN [t |-> "obj", es |-> Tree(d - 1)]
                                           ELSE [t |-> "leaf", kind |-> Pick(Kinds), v |-> RandomElement(1..1000)]]>> \o Go(S \ {k})
           IN Go(K)
Digits == LET n == RandomElement(1..15)
              all == [i \in 1..n |-> IF i = 1 \/ i = n THEN RandomElement(1..9) ELSE Pick(<<0, 0, 1, 5, 9, 9, 3>>)]
          IN all
Act(k) == CASE k = "tree" -> [k |-> k, es |-> Tree(Pick(u.p.depths))]
            [] k = "num" -> [k |-> k, neg |-> Pick(<<TRUE, FALSE>>), ds |-> Digits, e |-> RandomElement((0 - 25)..25), form |-> RandomElement(1..4)]
            [] k = "int" -> [k |-> "num", neg |-> Pick(<<TRUE, FALSE, FALSE>>), ds |-> Digits, e |-> Pick(<<0, 0, 1, 2, 6>>), form |-> RandomElement(1..4)]
            [] OTHER -> [k |-> k, v |-> RandomElement(1..1000)]
Init == hist = <<>> /\ u = [p |-> [name |-> "none"]]
Begin == /\ hist = <<>>
         /\ \E i \in {RandomElement(1..Len(P))} : u' = [p |-> P[i]]
         /\ hist' = <<[k |-> "begin", profile |-> u'.p.name, nk |-> u'.p.nk, seed |-> RandomElement(1..1000000000)]>>
Step == /\ hist # <<>> /\ Len(hist) <= u.p.len
        /\ hist' = Append(hist, Act(Pick(u.p.acts))) /\ UNCHANGED u
Finish == /\ hist # <<>> /\ Len(hist) = u.p.len + 1
          /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GENOUT)
          /\ hist' = hist \o <<[k |-> "end"], [k |-> "end"]>> /\ UNCHANGED u
Next == Begin \/ Step \/ Finish
=============================================================================
