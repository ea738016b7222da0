---------------------------- MODULE NormalTrace ----------------------------
(* Recorded calls of the filters. Every event brings what lowercasing,       *)
(* stemming and folding make of each of its words by itself, and which of    *)
(* them are stop words.                                                      *)
EXTENDS NormalCore, TLC, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tid
vars == <<l, tid>>
E == Trace[l]
Say(cat, what, want, got) ==
  CSVWrite("%1$s", <<ToJson([l |-> l, tid |-> tid, gen |-> 0, k |-> E.k, cat |-> cat, what |-> what,
                             want |-> want, got |-> got])>>, IOEnv.MISOUT)
Must(c, cat, what, want, got) == IF c THEN TRUE ELSE Say(cat, what, want, got)
Fn(a) == [w \in DOMAIN E.table |-> E.table[w][a]]
Stop(lang) == {w \in DOMAIN E.table : E.table[w][lang]}
Want(f, q) ==
  CASE f = "lower" -> Each(Fn("lower"), q)
    [] f = "stop_en" -> Drop(Stop("en"), q)
    [] f = "stop_pt" -> Drop(Stop("pt"), q)
    [] f = "stem" -> Each(Fn("stem"), q)
    [] f = "fold" -> Each(Fn("fold"), q)
    [] f = "all" -> Pipeline(Fn("lower"), Stop("en"), Fn("stem"), Fn("fold"), q)
Begin == E.k = "begin" /\ tid' = E.tid
Call == /\ E.k = "call"
        /\ LET want == Want(E.f, E.in) IN Must(want = E.out, E.f, E.in, want, E.out)
        /\ UNCHANGED tid
(* A field's term frequencies.                                               *)
Freq == /\ E.k = "freq"
        /\ LET want == CountOf(E.in) IN
           Must(DOMAIN E.out = DOMAIN want /\ \A w \in DOMAIN want : E.out[w] = want[w], "freq", E.in, want, E.out)
        /\ UNCHANGED tid
(* The words of a document, and of queries with the same words in other case *)
Same == /\ E.k = "same" /\ Must(E.out = E.other, "same", E.in, E.out, E.other) /\ UNCHANGED tid
Bad == E.k = "bad" /\ Say(E.cat, E.what, "never", "happened") /\ UNCHANGED tid
Init == l = 1 /\ tid = 0
Next == l <= Len(Trace) /\ (Begin \/ Call \/ Freq \/ Same \/ Bad) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
