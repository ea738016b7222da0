------------------------------- MODULE SaveGen -------------------------------
(* Histories of safe saves, drawn by TLC's simulator: one at a time, several *)
(* at once under a schedule, with failing operations, with deaths at any     *)
(* step after which a new process goes on in the folder as it is.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, Randomization
P == JsonDeserialize(IOEnv.PROFILE)
VARIABLES hist, u
vars == <<hist, u>>
Pick(q) == q[RandomElement(1..Len(q))]
Content == [v |-> RandomElement(1..4), size |-> Pick(u.p.sizes)]
One == [f |-> RandomElement(1..u.nf), c |-> Content,
        fault |-> IF RandomElement(1..100) <= u.p.faults THEN RandomElement(0..u.p.ops) ELSE 0,
        fault2 |-> IF RandomElement(1..100) <= u.p.faults THEN RandomElement(0..u.p.ops) ELSE 0,
        part |-> RandomElement(0..4)]
Saves == [i \in 1..Pick(u.p.together) |-> One]
Act == [k |-> "saves", saves |-> Saves, sched |-> [i \in 1..40 |-> RandomElement(0..5)],
        die |-> IF RandomElement(1..100) <= u.p.deaths THEN RandomElement(1..u.p.ops) ELSE 0]
Init == hist = <<>> /\ u = [p |-> [depth |-> 0]]
Begin == /\ hist = <<>>
         /\ \E i \in {RandomElement(1..Len(P))} : u' = [p |-> P[i], nf |-> Pick(P[i].nf)]
         /\ hist' = <<[k |-> "begin", nf |-> u'.nf, names |-> RandomElement(0..100000), profile |-> u'.p.name,
                       first |-> [i \in 1..u'.nf |-> IF RandomElement(1..3) = 1 THEN [v |-> 0, size |-> 0]
                                                     ELSE [v |-> RandomElement(1..4), size |-> Pick(u'.p.sizes)]]]>>
Step == /\ hist # <<>> /\ Len(hist) < u.p.depth
        /\ hist' = Append(hist, Act) /\ UNCHANGED u
Finish == /\ hist # <<>> /\ Len(hist) = u.p.depth
          /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GENOUT)
          /\ hist' = Append(hist, [k |-> "end"]) /\ UNCHANGED u
Next == Begin \/ Step \/ Finish
=============================================================================
