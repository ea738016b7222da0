------------------------------ MODULE NormalGen ------------------------------
(* Calls of the filters, drawn by TLC's simulator: lists of words by their   *)
(* number in a vocabulary the driver chooses, alone or several at once on    *)
(* the same filter.                                                          *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
P == JsonDeserialize(IOEnv.PROFILE)
VARIABLES hist, u
vars == <<hist, u>>
Pick(q) == q[RandomElement(1..Len(q))]
List == LET n == Pick(u.p.lens) IN [i \in 1..n |-> RandomElement(1..u.nv)]
Act(k) == [k |-> k, lists |-> [i \in 1..Pick(u.p.par) |-> List]]
Init == hist = <<>> /\ u = [p |-> [name |-> "none"]]
Begin == /\ hist = <<>>
         /\ \E i \in {RandomElement(1..Len(P))} : u' = [p |-> P[i], nv |-> Pick(P[i].nv)]
         /\ hist' = <<[k |-> "begin", nv |-> u'.nv, profile |-> u'.p.name, procs |-> RandomElement(1..8),
                       seed |-> RandomElement(1..1000000000)]>>
Step == /\ hist # <<>> /\ Len(hist) <= u.p.depth
        /\ hist' = Append(hist, Act(Pick(u.p.acts))) /\ UNCHANGED u
Finish == /\ hist # <<>> /\ Len(hist) = u.p.depth + 1
          /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GENOUT)
          /\ hist' = hist \o <<[k |-> "end"], [k |-> "end"]>> /\ UNCHANGED u
Next == Begin \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
