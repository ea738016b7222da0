---------------------------- MODULE FlattenTrace ----------------------------
(* Recorded runs of parsing, flattening and reading ids.                     *)
EXTENDS FlattenCore, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tid
vars == <<l, tid>>
E == Trace[l]
Say(cat, what, want, got) ==
  CSVWrite("%1$s", <<ToJson([l |-> l, tid |-> tid, gen |-> 0, k |-> E.k, cat |-> cat, what |-> what,
                             want |-> want, got |-> got])>>, IOEnv.MISOUT)
Must(c, cat, what, want, got) == IF c THEN TRUE ELSE Say(cat, what, want, got)
Got == {<<E.out[i].name, E.out[i].v>> : i \in 1..Len(E.out)}
Begin == E.k = "begin" /\ tid' = E.tid
Flat == /\ E.k = "flat"
        /\ IF Unambiguous(E.tree)
           THEN Must(Got = Named(E.tree), "flat", E.tree, Named(E.tree) \ Got, Got \ Named(E.tree))
           ELSE Must(Got \subseteq Named(E.tree) /\ {x[1] : x \in Got} = {x[1] : x \in Named(E.tree)},
                     "flat", E.tree, Named(E.tree), Got)
        /\ Must(E.same, "changed", E.tree, "the input as it was", "changed")
        /\ UNCHANGED tid
IdOf == /\ E.k = "id"
        /\ LET want == CASE E.kind = "num" -> Plain(E.neg, E.ds, E.e)
                         [] E.kind = "none" -> ""
                         [] OTHER -> E.text
           IN Must(E.got = want, "id", E, want, E.got)
        /\ UNCHANGED tid
Bad == E.k = "bad" /\ Say(E.cat, E.what, "never", "happened") /\ UNCHANGED tid
Init == l = 1 /\ tid = 0
Next == l <= Len(Trace) /\ (Begin \/ Flat \/ IdOf \/ Bad) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
