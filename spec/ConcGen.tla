------------------------------- MODULE ConcGen -------------------------------
(* Programs of several threads over one object (an LRU cache, a map, a       *)
(* store), drawn by TLC's simulator from a profile.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, Randomization
P == JsonDeserialize(IOEnv.PROFILE)
VARIABLES hist, u
vars == <<hist, u>>
Pick(q) == q[RandomElement(1..Len(q))]
Name(p, i) == p \o ToString(i)
Doc == Name("d", RandomElement(1..u.p.nd))
Field == Name("f", RandomElement(1..u.p.nf))
Term == Name("t", RandomElement(1..u.p.nt))
Key == Name("k", RandomElement(1..u.nk))
Min(a, b) == IF a < b THEN a ELSE b
SomeTerms(n) == {Name("t", i) : i \in RandomSubset(Min(n, u.p.nt), 1..u.p.nt)}
RECURSIVE Sum(_, _)
Sum(S, g) == IF S = {} THEN 0
             ELSE LET x == CHOOSE y \in S : TRUE IN g[x] + Sum(S \ {x}, g)
FieldVal(f) == LET T  == SomeTerms(RandomElement(0..u.p.nt))
                   tf == [t \in T |-> RandomElement(1..3)]
               IN [f |-> f, tf |-> tf, len |-> Sum(T, tf)]
SomeFields(n) == {Name("f", i) : i \in RandomSubset(Min(n, u.p.nf), 1..u.p.nf)}
RECURSIVE Saved(_)
Saved(S) == IF S = {} THEN <<>>
            ELSE LET f == RandomElement(S) IN <<FieldVal(f)>> \o Saved(S \ {f})
Op(o) ==
  CASE o \in {"put", "mset"} -> [op |-> o, key |-> Key, v |-> Pick(<<0, RandomElement(1..3), RandomElement(1..1000000), RandomElement(1..1000000)>>)]
    [] o \in {"get", "mget"} -> [op |-> o, key |-> Key]
    [] o = "save" -> [op |-> o, d |-> Doc, fs |-> Saved(SomeFields(Pick(u.p.nsf)))]
    [] o = "post" -> [op |-> o, d |-> Doc, f |-> Field, ts |-> SomeTerms(2)]
    [] o = "docs" -> [op |-> o, f |-> Field, t |-> Term]
    [] o = "df"   -> [op |-> o, f |-> Field, ts |-> [i \in 1..u.p.nt |-> Name("t", i)]]
    [] o \in {"size", "len", "index"} -> [op |-> o, f |-> Field]
    [] o = "fields" -> [op |-> o, f |-> Field, ds |-> [i \in 1..u.p.nd |-> Name("d", i)]]
    [] o = "search" -> [op |-> o, q |-> [i \in 1..Pick(u.p.nq) |-> [f |-> Field, b |-> 10, ts |-> [j \in 1..Pick(u.p.nqt) |-> Term]]]]
    [] o = "sleep" -> [op |-> o, n |-> Pick(u.p.sleeps)]
    [] OTHER -> [op |-> o]
Thread == [k |-> "thread", ops |-> [i \in 1..Pick(u.p.ops) |-> Op(Pick(u.p.mix))]]
Init == hist = <<>> /\ u = [p |-> [name |-> "none"]]
Begin == /\ hist = <<>>
         /\ \E i \in {RandomElement(1..Len(P))} :
              u' = [p |-> P[i], nk |-> Pick(P[i].nk), threads |-> Pick(P[i].threads)]
         /\ LET p == u'.p IN
               hist' = <<[k |-> "begin", kind |-> p.kind, impl |-> Pick(p.impls), cap |-> Pick(p.caps), nk |-> u'.nk,
                          nd |-> p.nd, nf |-> p.nf, nt |-> p.nt, profile |-> p.name, pool |-> Pick(p.pools),
                          procs |-> RandomElement(1..8), seed |-> RandomElement(1..1000000000)]>>
Step == /\ hist # <<>> /\ Len(hist) <= u.threads
        /\ hist' = Append(hist, Thread) /\ UNCHANGED u
Finish == /\ hist # <<>> /\ Len(hist) = u.threads + 1
          /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GENOUT)
          /\ hist' = hist \o <<[k |-> "end"], [k |-> "end"]>> /\ UNCHANGED u
Next == Begin \/ Step \/ Finish
=============================================================================
