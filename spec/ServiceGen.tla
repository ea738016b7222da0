----------------------------- MODULE ServiceGen -----------------------------
(* Histories of requests to the HTTP service, drawn by TLC's simulator.      *)
(* Words are numbers in a vocabulary, documents are numbers.                 *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
P == JsonDeserialize(IOEnv.PROFILE)
VARIABLES hist, u
vars == <<hist, u>>
Pick(q) == q[RandomElement(1..Len(q))]
Words(lens) == [i \in 1..Pick(lens) |-> RandomElement(1..u.nv)]
Req(k, docs) ==
  CASE k = "post" -> [k |-> k, d |-> Pick(docs), title |-> Words(u.p.titles), text |-> Words(u.p.texts), form |-> RandomElement(0..9)]
    [] k = "bad"  -> [k |-> k, form |-> RandomElement(0..11), d |-> Pick(docs)]
    [] k = "get"  -> [k |-> k, q |-> Words(u.p.queries), form |-> RandomElement(0..9)]
All == [i \in 1..u.nd |-> i]
(* A document is posted by one of the parallel clients only.                 *)
Share(t, n) == LET q == SelectSeq(All, LAMBDA d : d % n = t - 1) IN IF q = <<>> THEN <<u.nd + t>> ELSE q
Act(k) == CASE k = "par" -> LET n == Pick(u.p.threads) IN
                            [k |-> k, threads |-> [t \in 1..n |-> [i \in 1..Pick(u.p.ops) |-> Req(Pick(u.p.mix), Share(t, n))]]]
            [] k = "restart" -> [k |-> k]
            [] OTHER -> Req(k, All)
Init == hist = <<>> /\ u = [p |-> [name |-> "none"]]
Begin == /\ hist = <<>>
         /\ \E i \in {RandomElement(1..Len(P))} : u' = [p |-> P[i], nv |-> Pick(P[i].nv), nd |-> Pick(P[i].nd)]
         /\ hist' = <<[k |-> "begin", profile |-> u'.p.name, nv |-> u'.nv, nd |-> u'.nd, seed |-> RandomElement(1..1000000000)]>>
Step == /\ hist # <<>> /\ Len(hist) <= Len(u.p.acts)
        /\ hist' = Append(hist, Act(u.p.acts[Len(hist)])) /\ UNCHANGED u
Finish == /\ hist # <<>> /\ Len(hist) = Len(u.p.acts) + 1
          /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GENOUT)
          /\ hist' = hist \o <<[k |-> "end"], [k |-> "end"]>> /\ UNCHANGED u
Next == Begin \/ Step \/ Finish
=============================================================================
