------------------------------ MODULE Overlap ------------------------------
(* Searches that overlap saves. Each document is saved by one thread, so its *)
(* version is known except while a save of it runs, when it is the old or    *)
(* the new one. A search must return every document that contained one of    *)
(* its terms all the while the search ran (Sure), none that contained none   *)
(* of them at any moment of it (not in might), each once, by descending      *)
(* finite score. Consumes the calls and returns of TRACE in their order.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, val, going, active, tid
vars == <<l, val, going, active, tid>>
E == Trace[l]
Range(q) == {q[i] : i \in 1..Len(q)}
Empty == [x \in {} |-> x]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Say(cat, what, want, got) ==
  CSVWrite("%1$s", <<ToJson([l |-> l, tid |-> tid, gen |-> 0, k |-> E.k, cat |-> cat, what |-> what,
                             want |-> want, got |-> got])>>, IOEnv.MISOUT)
Must(c, cat, what, want, got) == IF c THEN TRUE ELSE Say(cat, what, want, got)

Pairs == DOMAIN val
(* The versions a document's field may have now: sets of terms.              *)
New(s) == [df \in {<<s.d, s.fs[i].f>> : i \in 1..Len(s.fs)} |->
             DOMAIN (CHOOSE v \in Range(s.fs) : v.f = df[2]).tf]
Poss(df) == {val[df]} \cup {New(going[w])[df] : w \in {x \in DOMAIN going : df \in DOMAIN New(going[x])}}
QTerms(q, f) == UNION {Range(q[i].ts) : i \in {j \in 1..Len(q) : q[j].f = f}}
Hit(q, df, T) == T \cap QTerms(q, df[2])

Begin == /\ E.k = "begin"
         /\ val' = [df \in Range(E.docs) \X Range(E.fields) |-> {}]
         /\ going' = Empty /\ active' = Empty /\ tid' = E.tid
SaveCall ==
  /\ E.k = "call" /\ E.x.op = "save"
  /\ going' = With(going, E.who, E.x)
  /\ active' = [w \in DOMAIN active |->
       LET a == active[w]
           n == New(E.x) IN
       [a EXCEPT !.might = @ \cup {df[1] : df \in {y \in DOMAIN n : Hit(a.q, y, n[y]) # {}}},
                 !.sure = {z \in @ : <<z[1], z[2]>> \in DOMAIN n => z[3] \in n[<<z[1], z[2]>>]}]]
  /\ UNCHANGED <<val, tid>>
SaveRet ==
  /\ E.k = "ret" /\ E.who \in DOMAIN going
  /\ LET n == New(going[E.who]) IN val' = [df \in Pairs |-> IF df \in DOMAIN n THEN n[df] ELSE val[df]]
  /\ going' = Without(going, E.who) /\ UNCHANGED <<active, tid>>
SearchCall ==
  /\ E.k = "call" /\ E.x.op = "search"
  /\ active' = With(active, E.who,
       [q |-> E.x.q,
        might |-> {df[1] : df \in {y \in Pairs : \E T \in Poss(y) : Hit(E.x.q, y, T) # {}}},
        sure |-> UNION {{<<df[1], df[2], t>> : t \in {u \in QTerms(E.x.q, df[2]) : \A T \in Poss(df) : u \in T}} : df \in Pairs}])
  /\ UNCHANGED <<val, going, tid>>
SearchRet ==
  /\ E.k = "ret" /\ E.who \in DOMAIN active
  /\ LET a == active[E.who]
         sure == {z[1] : z \in a.sure}
         res == Range(E.res.res) IN
     /\ Must(sure \subseteq res, "missing", a.q, sure, res)
     /\ Must(res \subseteq a.might, "foreign", a.q, a.might, res)
     /\ Must(Cardinality(res) = Len(E.res.res), "once", a.q, "each once", E.res.res)
     /\ Must(E.res.finite, "finite", a.q, "finite scores", "not finite")
     /\ Must(E.res.desc, "desc", a.q, "descending", "not descending")
  /\ active' = Without(active, E.who) /\ UNCHANGED <<val, going, tid>>
Bad == E.k = "bad" /\ Say(E.cat, E.what, "never", "happened") /\ UNCHANGED <<val, going, active, tid>>
End == E.k = "end" /\ UNCHANGED <<val, going, active, tid>>

Init == l = 1 /\ val = Empty /\ going = Empty /\ active = Empty /\ tid = 0
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \/ Begin \/ SaveCall \/ SaveRet \/ SearchCall \/ SearchRet \/ Bad \/ End
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
