--------------------------------- MODULE Lin ---------------------------------
(* Linearizability of recorded concurrent histories. Each history of TRACE   *)
(* is an initial state; TLC looks for an order of the calls, each taking     *)
(* effect between its beginning and its end, in which every call returned    *)
(* what the sequential specification of the object (an LRU cache, a map, a   *)
(* store) says. A call's result is known when it begins, as the histories    *)
(* are recorded; a call takes effect no earlier than the next return needs.  *)
(* A history that cannot be finished is reported with the event it stops at. *)
EXTENDS StoreCore, Integers, TLC, Json, CSV, IOUtils, LRUCore
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES start, l, obj, pend
vars == <<start, l, obj, pend>>
B == Trace[start]
Kind == B.kind
E == Trace[l]
Starts == {i \in 1..Len(Trace) : Trace[i].k = "begin"}

Empty(b) == CASE b.kind = "lru" -> <<>>
              [] b.kind = "map" -> EmptyFn
              [] b.kind = "store" -> Blank(Range(b.docs), Range(b.fields), Range(b.terms))
LastOf(q, p) == q[Len(q)]
(* The object after an operation.                                            *)
After(o, x) ==
  CASE x.op = "put"  -> LPut(o, B.cap, x.key, x.v)
    [] x.op = "get"  -> LGet(o, x.key)
    [] x.op = "mset" -> With(o, x.key, x.v)
    [] x.op = "save" -> SaveAll(o, x.d, x.fs)
    [] x.op = "post" -> Post(o, x.d, x.f, Range(x.ts))
    [] OTHER -> o
(* Whether the operation returns that.                                       *)
NonEmpty(m) == [t \in {u \in DOMAIN m : m[u] # {}} |-> m[t]]
Rets(o, x, r) ==
  CASE x.op \in {"put", "mset", "save", "post"} -> TRUE
    [] x.op = "get"  -> r = LHit(o, x.key)
    [] x.op = "mget" -> IF x.key \in DOMAIN o THEN r.ok /\ r.v = o[x.key] ELSE ~r.ok
    [] x.op = "data" -> DOMAIN r = DOMAIN o /\ \A key \in DOMAIN o : r[key] = o[key]
    [] x.op = "docs" -> Range(r) = o.index[x.f][x.t]
    [] x.op = "size" -> r = o.size[x.f]
    [] x.op = "len"  -> r = o.len[x.f]
    [] x.op = "df"   -> \A t \in Range(x.ts) : r[t] = o.df[x.f][t]
    [] x.op = "index" -> LET m == NonEmpty(o.index[x.f]) IN
                         DOMAIN r = DOMAIN m /\ \A t \in DOMAIN m : Range(r[t]) = m[t]
    [] x.op = "fields" -> LET D == {d \in Range(x.ds) : Has(o, d, x.f)} IN
                          DOMAIN r = D /\ \A d \in D : r[d] = o.docs[d][x.f]

Init == \E i \in Starts :
          /\ start = i /\ l = i + 1 /\ obj = Empty(Trace[i]) /\ pend = EmptyFn
          /\ TLCSet(i, i + 1)
Reach(n) == IF n > TLCGet(start) THEN TLCSet(start, n) ELSE TRUE
Call == /\ E.k = "call" /\ l' = l + 1
        /\ pend' = With(pend, E.who, [x |-> E.x, res |-> E.res, done |-> FALSE])
        /\ Reach(l') /\ UNCHANGED <<start, obj>>
Effect == /\ E.k = "ret" /\ ~pend[E.who].done
          /\ \E w \in DOMAIN pend :
               /\ ~pend[w].done /\ Rets(obj, pend[w].x, pend[w].res)
               /\ obj' = After(obj, pend[w].x)
               /\ pend' = [pend EXCEPT ![w].done = TRUE]
          /\ UNCHANGED <<start, l>>
Ret == /\ E.k = "ret" /\ pend[E.who].done /\ l' = l + 1
       /\ pend' = [w \in DOMAIN pend \ {E.who} |-> pend[w]]
       /\ Reach(l') /\ UNCHANGED <<start, obj>>
Next == l <= Len(Trace) /\ (Call \/ Effect \/ Ret)
Spec == Init /\ [][Next]_vars

EndOf(i) == CHOOSE j \in i..Len(Trace) : Trace[j].k = "end" /\ \A m \in i..(j-1) : Trace[m].k # "end"
Report == \A i \in Starts :
  IF TLCGet(i) < EndOf(i)
  THEN LET e == Trace[TLCGet(i)] IN
       CSVWrite("%1$s", <<ToJson([l |-> TLCGet(i), tid |-> Trace[i].tid, gen |-> 0, k |-> e.k,
                                  cat |-> IF e.k = "bad" THEN e.cat ELSE "linear",
                                  what |-> e, want |-> "an order of the calls that explains it", got |-> "none"])>>, IOEnv.MISOUT)
  ELSE TRUE
=============================================================================
