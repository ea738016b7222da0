---------------------------- MODULE SerialTrace ----------------------------
(* Recorded histories of serialising and reading back: what is read from     *)
(* handle h is what was serialised there, and a value read back (g) is the   *)
(* same when it is looked at again later.                                    *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tid, want, got
vars == <<l, tid, want, got>>
E == Trace[l]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> x]
Say(cat, what, w, g) ==
  CSVWrite("%1$s", <<ToJson([l |-> l, tid |-> tid, gen |-> 0, k |-> E.k, cat |-> cat, what |-> what,
                             want |-> w, got |-> g])>>, IOEnv.MISOUT)
Must(c, cat, what, w, g) == IF c THEN TRUE ELSE Say(cat, what, w, g)
Set(q) == {q[i] : i \in 1..Len(q)}
(* The same value, whatever the order its entries are listed in.             *)
Same(a, b) ==
  /\ a.kind = b.kind
  /\ CASE a.kind = "index" -> DOMAIN a.v = DOMAIN b.v /\ \A t \in DOMAIN a.v : Set(a.v[t]) = Set(b.v[t])
       [] a.kind = "docs" -> /\ DOMAIN a.v = DOMAIN b.v
                             /\ \A f \in DOMAIN a.v : /\ a.v[f].name = b.v[f].name /\ a.v[f].len = b.v[f].len
                                                      /\ DOMAIN a.v[f].tf = DOMAIN b.v[f].tf
                                                      /\ \A t \in DOMAIN a.v[f].tf : a.v[f].tf[t] = b.v[f].tf[t]
       [] a.kind = "counts" -> DOMAIN a.v = DOMAIN b.v /\ \A t \in DOMAIN a.v : a.v[t] = b.v[t]
       [] OTHER -> a.v = b.v
Begin == E.k = "begin" /\ tid' = E.tid /\ want' = Empty /\ got' = Empty
Ser == E.k = "ser" /\ want' = With(want, E.h, E.x) /\ UNCHANGED <<tid, got>>
Des == /\ E.k = "des" /\ Must(Same(want[E.h], E.x), "differs", E.x.kind, want[E.h], E.x)
       /\ got' = With(got, E.g, want[E.h]) /\ UNCHANGED <<tid, want>>
Look == /\ E.k = "look" /\ Must(Same(got[E.g], E.x), "changed", E.x.kind, got[E.g], E.x) /\ UNCHANGED <<tid, want, got>>
Bad == E.k = "bad" /\ Say(E.cat, E.what, "never", "happened") /\ UNCHANGED <<tid, want, got>>
Init == l = 1 /\ tid = 0 /\ want = Empty /\ got = Empty
Next == l <= Len(Trace) /\ (Begin \/ Ser \/ Des \/ Look \/ Bad) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
