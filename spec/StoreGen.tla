------------------------------ MODULE StoreGen ------------------------------
(* Behaviours of StoreTrace's actions, drawn at random by TLC's simulator:   *)
(* every action the trace specification allows, with arguments from a        *)
(* universe that is chosen per behaviour from a profile (PROFILE, a JSON     *)
(* file). Each finished behaviour is one line of GENOUT.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, Randomization
P == JsonDeserialize(IOEnv.PROFILE)
VARIABLES hist, u
vars == <<hist, u>>

Pick(q) == q[RandomElement(1..Len(q))]
Name(p, i) == p \o ToString(i)
Doc == Name("d", RandomElement(1..u.nd))
Field == Name("f", RandomElement(1..u.nf))
Term == Name("t", RandomElement(1..u.nt))
Min(a, b) == IF a < b THEN a ELSE b
SomeTerms(n) == {Name("t", i) : i \in RandomSubset(Min(n, u.nt), 1..u.nt)}

RECURSIVE Sum(_, _)
Sum(S, g) == IF S = {} THEN 0
             ELSE LET x == CHOOSE y \in S : TRUE IN g[x] + Sum(S \ {x}, g)
FieldVal(f) ==
  LET T  == SomeTerms(Pick(u.p.ntf))
      tf == [t \in T |-> RandomElement(1..u.p.maxtf)]
  IN [f |-> f, tf |-> tf, len |-> Sum(T, tf) + (IF T = {} THEN 0 ELSE Pick(u.p.extralen))]
FieldVals == LET k == Pick(u.p.nfs)
                 F == RandomSubset(Min(k, u.nf), 1..u.nf)
                 RECURSIVE Go(_)
                 Go(S) == IF S = {} THEN <<>>
                          ELSE LET x == CHOOSE y \in S : TRUE
                               IN <<FieldVal(Name("f", x))>> \o Go(S \ {x})
             IN Go(F)
Query == [i \in 1..Pick(u.p.nq) |->
            [f |-> Field, b |-> Pick(<<0, 10, 10, 20, 5, 35>>),
             ts |-> [j \in 1..Pick(u.p.nqt) |-> Term]]]

Act(k) ==
  CASE k = "save"   -> [k |-> k, d |-> Doc, fs |-> FieldVals]
    [] k = "saveall" -> [k |-> k, fs |-> <<FieldVal(Field)>>]
    [] k = "savemany" -> [k |-> k]
    [] k = "tick"   -> [k |-> k, n |-> Pick(<<5, 7, 10, 13, 15>>)]
    [] k = "post"   -> [k |-> k, d |-> Doc, f |-> Field, ts |-> SomeTerms(2)]
    [] k = "adv"    -> [k |-> k, n |-> Pick(u.p.advs)]
    [] k = "quiet"  -> [k |-> "adv", n |-> 21]
    [] k = "age"    -> [k |-> "adv", n |-> Pick(<<300, 1000, 1800, 3000>>)]
    [] k = "until"  -> [k |-> k, n |-> 195]
    [] k = "adv13"  -> [k |-> "adv", n |-> 13]
    [] k = "merge"  -> [k |-> "adv", n |-> 36]
    [] k = "obs"    -> [k |-> k, parts |-> Pick(u.p.parts)]
    [] k = "obsall" -> [k |-> "obs", parts |-> <<"post", "idx", "stat", "docs">>]
    [] k = "search" -> [k |-> k, q |-> Query]
    [] k = "searches" -> [k |-> k, n |-> Pick(<<2, 5, 10>>), qs |-> [i \in 1..RandomElement(1..4) |-> Query]]
    [] k = "merged" -> [k |-> k]
    [] k = "census" -> [k |-> k]
    [] k = "fault" -> [k |-> k, class |-> Pick(u.p.classes), lasting |-> Pick(<<TRUE, FALSE, FALSE>>), pick |-> RandomElement(0..Pick(<<3, 20>>))]
    [] k = "stuck" -> [k |-> "fault", class |-> Pick(u.p.classes), lasting |-> TRUE, pick |-> RandomElement(0..2)]
    [] k = "mend" -> [k |-> k]
    [] k = "restart" -> [k |-> k, cache |-> Pick(u.p.caches)]
    [] k = "reopen" -> [k |-> k, cache |-> Pick(u.p.caches)]
    [] k = "crashadv" -> [k |-> k, n |-> Pick(u.p.advs), cont |-> Pick(<<TRUE, FALSE>>),
                          pick |-> RandomElement(0..1000), cache |-> Pick(u.p.caches)]

Init == hist = <<>> /\ u = [p |-> [depth |-> 0]]
Begin == /\ hist = <<>>
         /\ \E i \in {RandomElement(1..Len(P))} :
              u' = [p |-> P[i], nd |-> Pick(P[i].nd), nf |-> Pick(P[i].nf), nt |-> Pick(P[i].nt)]
         /\ hist' = <<[k |-> "begin", nd |-> u'.nd, nf |-> u'.nf, nt |-> u'.nt,
                       backend |-> Pick(u'.p.backends), cache |-> Pick(u'.p.caches),
                       pool |-> Pick(u'.p.pools), slow |-> Pick(u'.p.slow), profile |-> u'.p.name,
                       seed |-> RandomElement(1..1000000000)]>>
Step == /\ hist # <<>> /\ Len(hist) < u.p.depth
        /\ hist' = Append(hist, Act(Pick(u.p.acts)))
        /\ UNCHANGED u
Finish == /\ hist # <<>> /\ Len(hist) = u.p.depth
          /\ LET all == hist \o [i \in 1..Len(u.p.tail) |-> Act(u.p.tail[i])]
             IN CSVWrite("%1$s", <<ToJson(all)>>, IOEnv.GENOUT)
          /\ hist' = Append(hist, [k |-> "end"])
          /\ UNCHANGED u
Next == Begin \/ Step \/ Finish
=============================================================================
