------------------------------- MODULE WBTrace -------------------------------
(* Checks recorded runs of the real write-behind maps against WriteBehind's  *)
(* properties: a key reads as a value put for it, never goes back behind one *)
(* that was seen, and follows a put within BOUND milliseconds. Times are     *)
(* those of the virtual clock; a put is older than another if it ended       *)
(* before that one began.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
BOUND == 5000
VARIABLES l, tid,
          puts,  \* v -> [key, c (the value), ended (time, or Never), after (older puts of the key)]
          seen,  \* key -> values that completed reads returned
          pend   \* reads under way: who -> [seen, t]
vars == <<l, tid, puts, seen, pend>>
Never == 1000000000
E == Trace[l]
EmptyFn == [x \in {} |-> 0]
With(fn, k, v) == [x \in DOMAIN fn \cup {k} |-> IF x = k THEN v ELSE fn[x]]
Say(cat, what, want, got) ==
  CSVWrite("%1$s", <<ToJson([l |-> l, tid |-> tid, gen |-> 0, k |-> E.k, cat |-> cat,
                             what |-> what, want |-> want, got |-> got])>>, IOEnv.MISOUT)
Must(ok, cat, what, want, got) == IF ok THEN TRUE ELSE Say(cat, what, want, got)
Of(key) == {v \in DOMAIN puts : puts[v].key = key}
Seen(key) == IF key \in DOMAIN seen THEN seen[key] ELSE {}
Range(q) == {q[i] : i \in 1..Len(q)}

Begin == /\ E.k = "begin" /\ tid' = E.tid
         /\ puts' = EmptyFn /\ seen' = EmptyFn /\ pend' = EmptyFn
PutCall == /\ E.k = "pcall"
           /\ puts' = With(puts, E.v, [key |-> E.key, c |-> E.c, ended |-> Never,
                                       after |-> {v \in Of(E.key) : puts[v].ended # Never}])
           /\ UNCHANGED <<tid, seen, pend>>
PutRet == /\ E.k = "pret"
          /\ puts' = [puts EXCEPT ![E.v].ended = E.t]
          /\ UNCHANGED <<tid, seen, pend>>
GetCall == /\ E.k = "gcall"
           /\ pend' = With(pend, E.who, [seen |-> Seen(E.key), t |-> E.t])
           /\ UNCHANGED <<tid, puts, seen>>
Due(key, t) == {v \in Of(key) : puts[v].ended + BOUND <= t}
GetRet ==
  /\ E.k = "gret"
  /\ LET p == pend[E.who]
         own == {v \in Of(E.key) : puts[v].c = E.v}
         new == {v \in own : \A w \in p.seen : v \notin puts[w].after}
         can == {v \in new : \A w \in Due(E.key, p.t) : v \notin puts[w].after} IN
     IF ~E.ok
     THEN /\ Must(p.seen = {}, "back", E.key, p.seen, "nothing")
          /\ Must(Due(E.key, p.t) = {}, "late", E.key, Due(E.key, p.t), "nothing")
          /\ seen' = seen
     ELSE /\ Must(own # {}, "foreign", E.key, {puts[v].c : v \in Of(E.key)}, E.v)
          /\ own # {} => Must(new # {}, "back", E.key, p.seen, E.v)
          /\ new # {} => Must(can # {}, "late", E.key, Due(E.key, p.t), E.v)
          (* which of several puts of one value it was is not known *)
          /\ seen' = IF Cardinality(can) = 1 THEN With(seen, E.key, Seen(E.key) \cup can) ELSE seen
  /\ pend' = [w \in DOMAIN pend \ {E.who} |-> pend[w]]
  /\ UNCHANGED <<tid, puts>>
(* A burst: many puts of few keys. seen are the reads made meanwhile and     *)
(* after, as <<writer, number>>, lasts each writer's last number for the key.*)
Burst ==
  /\ E.k = "burst"
  /\ \A key \in DOMAIN E.lasts :
       LET q == E.seen[key] IN
       /\ \A i \in 1..(Len(q) - 1) : \A j \in (i + 1)..Len(q) :
            Must(q[i][1] # q[j][1] \/ q[i][2] <= q[j][2], "back", key, q[i], q[j])
       /\ Must(Len(E.final[key]) = 2 /\ E.final[key] \in Range(E.lasts[key]), "late", key, E.lasts[key], E.final[key])
  /\ Must(E.missing = 0, "late", "keys never published", 0, E.missing)
  /\ UNCHANGED <<tid, puts, seen, pend>>
Bad == /\ E.k = "bad" /\ Say(E.cat, E.what, "never", "happened") /\ UNCHANGED <<tid, puts, seen, pend>>
Init == l = 1 /\ tid = 0 /\ puts = EmptyFn /\ seen = EmptyFn /\ pend = EmptyFn
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ PutCall \/ PutRet \/ GetCall \/ GetRet \/ Burst \/ Bad)
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
