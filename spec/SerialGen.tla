------------------------------ MODULE SerialGen ------------------------------
(* Histories of serialising, compressing, reading back and reusing buffers,  *)
(* drawn by TLC's simulator, by one thread or several.                       *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
P == JsonDeserialize(IOEnv.PROFILE)
VARIABLES hist, u
vars == <<hist, u>>
Pick(q) == q[RandomElement(1..Len(q))]
Op(o) == CASE o = "ser" -> [k |-> o, kind |-> Pick(<<"index", "docs", "counts", "metrics", "bytes">>), n |-> Pick(u.p.sizes), m |-> Pick(u.p.msizes),
                            gz |-> Pick(<<TRUE, FALSE>>)]
           [] OTHER -> [k |-> o, pick |-> RandomElement(1..1000)]
Thread == [k |-> "thread", ops |-> [i \in 1..Pick(u.p.ops) |-> Op(IF i = 1 THEN "ser" ELSE Pick(u.p.mix))]]
Init == hist = <<>> /\ u = [p |-> [name |-> "none"]]
Begin == /\ hist = <<>>
         /\ \E i \in {RandomElement(1..Len(P))} : u' = [p |-> P[i], threads |-> Pick(P[i].threads)]
         /\ hist' = <<[k |-> "begin", profile |-> u'.p.name, pool |-> Pick(u'.p.pools), procs |-> RandomElement(1..8),
                       seed |-> RandomElement(1..1000000000)]>>
Step == /\ hist # <<>> /\ Len(hist) <= u.threads
        /\ hist' = Append(hist, Thread) /\ UNCHANGED u
Finish == /\ hist # <<>> /\ Len(hist) = u.threads + 1
          /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GENOUT)
          /\ hist' = hist \o <<[k |-> "end"], [k |-> "end"]>> /\ UNCHANGED u
Next == Begin \/ Step \/ Finish
=============================================================================
