------------------------------- MODULE Service -------------------------------
(* The HTTP service: what clients posted, and what they may find. Consumes   *)
(* the requests and answers of TRACE, in the order of the clients' clock.    *)
(* While a post runs each field of its document may be the old or the new    *)
(* one. An answer to a search that no post overlapped must be the best       *)
(* min(10, matches) documents; the BM25 sums it must show are written to     *)
(* SCOREOUT. Another one must hold every document that contained a word of   *)
(* the query all the while (unless it holds ten) and none that never did.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tid, docs, going, active
vars == <<l, tid, docs, going, active>>
E == Trace[l]
FIELDS == {"title", "text"}
LIMIT == 10
Range(q) == {q[i] : i \in 1..Len(q)}
Empty == [x \in {} |-> x]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Min(a, b) == IF a < b THEN a ELSE b
Say(cat, what, want, got) ==
  CSVWrite("%1$s", <<ToJson([l |-> l, tid |-> tid, gen |-> 0, k |-> E.k, cat |-> cat, what |-> what,
                             want |-> want, got |-> got])>>, IOEnv.MISOUT)
Must(c, cat, what, want, got) == IF c THEN TRUE ELSE Say(cat, what, want, got)

Holds(x, f, T) == Range(x[f]) \cap T # {}
Hits(T) == {d \in DOMAIN docs : \E f \in FIELDS : Holds(docs[d], f, T)}
(* What document d's field f may be now.                                     *)
New(d) == {going[w] : w \in {x \in DOMAIN going : going[x].d = d}}
Poss(d, f) == {Range(x[f]) : x \in New(d) \cup (IF d \in DOMAIN docs THEN {docs[d]} ELSE {})}
SureOf(d, T) == {<<d, f, t>> : f \in FIELDS, t \in T}
RECURSIVE Total(_, _)
Total(S, g) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN g[x] + Total(S \ {x}, g)
Count(w, q) == Cardinality({i \in 1..Len(q) : q[i] = w})
(* What the score of document d is made of, for the query's words.           *)
Parts(d, ws) ==
  LET Of(f) == LET ts == SelectSeq(ws, LAMBDA w : w \in Range(docs[d][f])) IN
        [j \in 1..Len(ts) |->
           [b |-> 10, N |-> Cardinality(DOMAIN docs),
            n |-> Cardinality({x \in DOMAIN docs : ts[j] \in Range(docs[x][f])}),
            tf |-> Count(ts[j], docs[d][f]), len |-> Len(docs[d][f]),
            tot |-> Total(DOMAIN docs, [x \in DOMAIN docs |-> Len(docs[x][f])])]]
  IN <<Of("title"), Of("text")>>

Begin == E.k = "begin" /\ tid' = E.tid /\ docs' = Empty /\ going' = Empty /\ active' = Empty
PostCall ==
  /\ E.k = "call" /\ E.op = "post"
  /\ going' = With(going, E.who, [d |-> E.d, title |-> E.title, text |-> E.text])
  /\ active' = [w \in DOMAIN active |->
       LET a == active[w] IN
       [a EXCEPT !.exact = FALSE,
                 !.might = IF \E f \in FIELDS : Holds(E, f, a.T) THEN @ \cup {E.d} ELSE @,
                 !.sure = {z \in @ : z[1] = E.d => z[3] \in Range(E[z[2]])}]]
  /\ UNCHANGED <<tid, docs>>
PostRet ==
  /\ E.k = "ret" /\ E.who \in DOMAIN going
  /\ Must(E.status = 201, "refused", going[E.who].d, 201, E.status)
  /\ docs' = With(docs, going[E.who].d, [title |-> going[E.who].title, text |-> going[E.who].text])
  /\ going' = Without(going, E.who) /\ UNCHANGED <<tid, active>>
(* A request that is no document: refused, changes nothing.                  *)
BadPost == /\ E.k = "badpost" /\ Must(E.status >= 400 /\ E.status < 500, "accepted", E.what, "4xx", E.status)
           /\ UNCHANGED <<tid, docs, going, active>>
GetCall ==
  /\ E.k = "call" /\ E.op = "get"
  /\ LET T == Range(E.q)
         D == DOMAIN docs \cup {going[w].d : w \in DOMAIN going} IN
     active' = With(active, E.who,
       [q |-> E.q, T |-> T, exact |-> going = Empty,
        might |-> {d \in D : \E f \in FIELDS : \E x \in Poss(d, f) : x \cap T # {}},
        sure |-> UNION {{z \in SureOf(d, T) : \A x \in Poss(d, z[2]) : z[3] \in x} : d \in DOMAIN docs}])
  /\ UNCHANGED <<tid, docs, going>>
GetRet ==
  /\ E.k = "ret" /\ E.who \in DOMAIN active
  /\ LET a == active[E.who]
         sure == {z[1] : z \in a.sure}
         res == Range(E.res) IN
     /\ Must(E.status = 200, "status", a.q, 200, E.status)
     /\ E.status = 200 =>
        /\ Must(E.total = Len(E.res), "total", a.q, Len(E.res), E.total)
        /\ Must(Cardinality(res) = Len(E.res), "once", a.q, "each once", E.res)
        /\ Must(Len(E.res) <= LIMIT, "limit", a.q, LIMIT, E.res)
        /\ Must(res \subseteq a.might, "foreign", a.q, a.might, res)
        /\ Must(sure \subseteq res \/ Len(E.res) = LIMIT, "missing", a.q, sure, res)
        /\ Must(E.desc, "order", a.q, "descending similarity", E.res)
        /\ a.exact =>
           /\ Must(Len(E.res) = Min(LIMIT, Cardinality(Hits(a.T))), "hits", a.q, Hits(a.T), E.res)
           /\ res \subseteq DOMAIN docs =>
              LET h == Hits(a.T) IN
              CSVWrite("%1$s", <<ToJson([l |-> l, tid |-> tid, parts |-> [d \in h |-> Parts(d, a.q)]])>>, IOEnv.SCOREOUT)
  /\ active' = Without(active, E.who) /\ UNCHANGED <<tid, docs, going>>
(* The service was stopped and started again.                                *)
Restart == E.k = "restart" /\ Must(E.ok, "restart", "the service", "starts", E.err) /\ UNCHANGED <<tid, docs, going, active>>
Bad == E.k = "bad" /\ Say(E.cat, E.what, "never", "happened") /\ UNCHANGED <<tid, docs, going, active>>
Init == l = 1 /\ tid = 0 /\ docs = Empty /\ going = Empty /\ active = Empty
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ (Begin \/ PostCall \/ PostRet \/ BadPost \/ GetCall \/ GetRet \/ Restart \/ Bad)
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
