------------------------------ MODULE SaveTrace ------------------------------
(* Checks recorded runs of the real safe save against what SaveFile promises:*)
(* before and after every file operation of every saver a reader finds the   *)
(* content the file had or that of a save under way, whole; a success has    *)
(* put its content there, a failure has not; a death changes nothing.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tid,
          val,   \* what each file holds
          pend   \* saves under way: who -> [f, c, old, seen, others]
vars == <<l, tid, val, pend>>
E == Trace[l]
Say(cat, what, want, got) ==
  CSVWrite("%1$s", <<ToJson([l |-> l, tid |-> tid, gen |-> 0, k |-> E.k, cat |-> cat,
                             what |-> what, want |-> want, got |-> got])>>, IOEnv.MISOUT)
Must(ok, cat, what, want, got) == IF ok THEN TRUE ELSE Say(cat, what, want, got)
Under(f) == {w \in DOMAIN pend : pend[w].f = f}

Begin == /\ E.k = "begin" /\ tid' = E.tid /\ val' = E.files /\ pend' = [x \in {} |-> 0]
Call == /\ E.k = "call"
        /\ pend' = [x \in DOMAIN pend \cup {E.who} |->
                      IF x = E.who THEN [f |-> E.f, c |-> E.c, old |-> val[E.f], seen |-> {val[E.f]}, others |-> {}]
                      ELSE IF x \in DOMAIN pend /\ pend[x].f = E.f
                      THEN [pend[x] EXCEPT !.others = @ \cup {E.c}] ELSE pend[x]]
        /\ UNCHANGED <<tid, val>>
See == /\ E.k = "see"
       /\ \A f \in DOMAIN val :
            Must(E.files[f] = val[f] \/ \E w \in Under(f) : pend[w].c = E.files[f],
                 "torn", <<f, E.at>>, {val[f]} \cup {pend[w].c : w \in Under(f)}, E.files[f])
       /\ val' = E.files
       /\ pend' = [w \in DOMAIN pend |-> [pend[w] EXCEPT !.seen = @ \cup {E.files[pend[w].f]}]]
       /\ UNCHANGED <<tid>>
Ret == /\ E.k = "ret"
       /\ LET p == pend[E.who]
              alone == p.others = {} /\ Under(p.f) = {E.who} IN
          IF E.ok THEN Must(p.c \in p.seen /\ (alone => val[p.f] = p.c), "success", <<p.f, E.err>>, p.c, val[p.f])
          ELSE Must(p.c \notin p.seen \/ p.c = p.old \/ p.c \in p.others \/ \E w \in Under(p.f) \ {E.who} : pend[w].c = p.c,
                    "failure", <<p.f, E.err>>, p.old, val[p.f])
       (* an error without any failing operation is no answer *)
       /\ Must(E.ok \/ E.faults > 0, "refused", E.err, "succeeds", "fails")
       /\ pend' = [w \in DOMAIN pend \ {E.who} |->
                     IF pend[w].f = pend[E.who].f /\ E.ok THEN [pend[w] EXCEPT !.others = @ \cup {pend[E.who].c}] ELSE pend[w]]
       /\ UNCHANGED <<tid, val>>
(* The process dies: what was under way never comes any further.             *)
Die == /\ E.k = "die"
       /\ \A f \in DOMAIN val : Must(E.files[f] = val[f], "torn", <<f, "death">>, val[f], E.files[f])
       /\ val' = E.files /\ pend' = [x \in {} |-> 0] /\ UNCHANGED <<tid>>
Bad == /\ E.k = "bad" /\ Say(E.cat, E.what, "never", "happened") /\ UNCHANGED <<tid, val, pend>>
Init == l = 1 /\ tid = 0 /\ val = [x \in {} |-> 0] /\ pend = [x \in {} |-> 0]
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Call \/ See \/ Ret \/ Die \/ Bad)
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
