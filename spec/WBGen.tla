-------------------------------- MODULE WBGen --------------------------------
(* Histories of puts and gets on a write-behind map, by one or several       *)
(* threads, with time passing, drawn by TLC's simulator from a profile.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, Randomization
P == JsonDeserialize(IOEnv.PROFILE)
VARIABLES hist, u
vars == <<hist, u>>
Pick(q) == q[RandomElement(1..Len(q))]
Key == "k" \o ToString(RandomElement(1..u.nk))
(* c: the value put, 0 for one of its own.                                  *)
Op == [op |-> Pick(u.p.mix), key |-> Key, n |-> Pick(u.p.naps), c |-> Pick(u.p.vals)]
Act(k) ==
  CASE k = "par" -> [k |-> k, threads |-> [i \in 1..Pick(u.p.threads) |-> [j \in 1..Pick(u.p.ops) |-> Op]]]
    [] k = "adv" -> [k |-> k, n |-> Pick(u.p.advs)]
    [] k = "reads" -> [k |-> k]
    [] k = "burst" -> [k |-> k, writers |-> Pick(<<1, 2, 4, 8>>), each |-> Pick(u.p.each), keys |-> Pick(<<1, 3, 500>>)]
Init == hist = <<>> /\ u = [p |-> [depth |-> 0]]
Begin == /\ hist = <<>>
         /\ \E i \in {RandomElement(1..Len(P))} : u' = [p |-> P[i], nk |-> Pick(P[i].nk)]
         /\ hist' = <<[k |-> "begin", impl |-> Pick(u'.p.impls), nk |-> u'.nk, profile |-> u'.p.name, pool |-> Pick(u'.p.pools),
                       procs |-> RandomElement(1..8), seed |-> RandomElement(1..1000000000)]>>
Step == /\ hist # <<>> /\ Len(hist) < u.p.depth
        /\ hist' = Append(hist, Act(Pick(u.p.acts))) /\ UNCHANGED u
Finish == /\ hist # <<>> /\ Len(hist) = u.p.depth
          /\ CSVWrite("%1$s", <<ToJson(hist \o <<[k |-> "adv", n |-> 5000], [k |-> "reads"], [k |-> "reads"]>>)>>, IOEnv.GENOUT)
          /\ hist' = Append(hist, [k |-> "end"]) /\ UNCHANGED u
Next == Begin \/ Step \/ Finish
=============================================================================
