----------------------------- MODULE StoreTrace -----------------------------
(* Checks recorded runs of the real stores (TRACE, one JSON event per line)  *)
(* against StoreCore plus the durability rules of a disk store:              *)
(*                                                                           *)
(*  - while a store lives, what it answers is exactly the abstract state;    *)
(*  - when its folder is opened again (`reopen', or `peek' at a crash image) *)
(*    every item (a document, the counters of a field, the count of a term,  *)
(*    a posting) has a value it had at some moment of the last WINDOW        *)
(*    seconds, and not an older one than was seen durable before (`flo').    *)
(*                                                                           *)
(* The run is one behaviour, a step per event; what does not conform is      *)
(* written to MISOUT, the observed state is adopted and the run goes on, so  *)
(* every event of every trace is judged. For each search the BM25 sums it    *)
(* must have returned are written, as integers, to SCOREOUT.                 *)
EXTENDS StoreCore, Integers, TLC, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
WINDOW == 20
MERGEWINDOW == 35
Forever == 0 - 1000

VARIABLES l,      \* next event
          s,      \* the abstract state
          past,   \* [at, s]: the states since, and the one current at, clock - MERGEWINDOW
          clock,
          ever,   \* ever[f][t]: every document that was ever listed
          dropped,\* dropped[f][t]: documents a later save took out again
          flo,    \* the oldest version of each item that may still be on disk
          taint,  \* fields whose counters a crash left undetermined
          gen,    \* how often the folder was opened again
          tid,
          kept,   \* what was counted in the folder before
          calm    \* since when the file system works
vars == <<l, s, past, clock, ever, dropped, flo, taint, gen, tid, kept, calm>>

Docs == DOMAIN s.docs
Fields == DOMAIN s.size
Terms(x) == UNION {DOMAIN x.df[f] : f \in DOMAIN x.df}

E == Trace[l]
Obs == E.obs
HasObs(p) == p \in DOMAIN Obs

Say(cat, what, want, got) ==
  CSVWrite("%1$s", <<ToJson([l |-> l, tid |-> tid, gen |-> gen, k |-> E.k, cat |-> cat,
                             what |-> what, want |-> want, got |-> got])>>, IOEnv.MISOUT)
Must(ok, cat, what, want, got) == IF ok THEN TRUE ELSE Say(cat, what, want, got)

At(obsmap, k) == IF k \in DOMAIN obsmap THEN Range(obsmap[k]) ELSE {}

----------------------------------------------------------------------------
(* The states that were current at some moment of the last w seconds.        *)
In(w) == {i \in 1..Len(past) : i = Len(past) \/ past[i+1].at > clock - w}
Window == {past[i].s : i \in In(WINDOW)}
(* A new state takes effect now.                                             *)
Push(p, x) == Append(p, [at |-> clock, s |-> x])
Prune(p, now) ==
  LET keep == {i \in 1..Len(p) : i = Len(p) \/ p[i+1].at > now - MERGEWINDOW}
      lo == CHOOSE i \in keep : \A j \in keep : i <= j
  IN SubSeq(p, lo, Len(p))
NoFloor(x) ==
  [docs |-> [d \in DOMAIN x.docs |-> 0], met |-> [f \in DOMAIN x.size |-> 0],
   df |-> [f \in DOMAIN x.df |-> [t \in DOMAIN x.df[f] |-> 0]],
   post |-> [f \in DOMAIN x.index |-> [t \in DOMAIN x.index[f] |-> {}]], base |-> 0]

ObsState(o) ==
  [index |-> [f \in Fields |-> [t \in DOMAIN s.index[f] |-> Range(o.post[f][t])]],
   size |-> [f \in Fields |-> o.size[f]], len |-> [f \in Fields |-> o.len[f]],
   df |-> [f \in Fields |-> [t \in DOMAIN s.df[f] |-> o.df[f][t]]],
   docs |-> [d \in Docs |-> o.docs[d]]]

----------------------------------------------------------------------------
(* A live store answers exactly the state. Every operator below is evaluated *)
(* for its effect of reporting, and is always TRUE.                          *)
LiveOk ==
  /\ HasObs("post") => \A f \in DOMAIN Obs.post : \A t \in DOMAIN Obs.post[f] :
       Must(Range(Obs.post[f][t]) = s.index[f][t], "post", <<f, t>>, s.index[f][t], Obs.post[f][t])
  /\ HasObs("idx") => \A f \in DOMAIN Obs.idx : \A t \in DOMAIN s.index[f] \cup DOMAIN Obs.idx[f] :
       Must(t \in DOMAIN s.index[f] /\ At(Obs.idx[f], t) = s.index[f][t],
            "idx", <<f, t>>, IF t \in DOMAIN s.index[f] THEN s.index[f][t] ELSE {}, At(Obs.idx[f], t))
  /\ HasObs("size") => \A f \in Fields : f \notin taint =>
       /\ Must(Obs.size[f] = s.size[f], "size", f, s.size[f], Obs.size[f])
       /\ Must(Obs.len[f] = s.len[f], "len", f, s.len[f], Obs.len[f])
       /\ \A t \in DOMAIN s.df[f] :
            Must(Obs.df[f][t] = s.df[f][t], "df", <<f, t>>, s.df[f][t], Obs.df[f][t])
  /\ HasObs("size") => \A f \in Fields :
       Must(DOMAIN Obs.df[f] \subseteq DOMAIN s.df[f], "df", f, DOMAIN s.df[f], DOMAIN Obs.df[f])
  /\ HasObs("size") => \A f \in taint :
       /\ Must(Obs.size[f] >= 0 /\ Obs.len[f] >= 0, "size", f, "not negative", Obs.size[f])
       /\ \A t \in DOMAIN s.df[f] : Must(Obs.df[f][t] >= 0, "df", <<f, t>>, "not negative", Obs.df[f][t])
  /\ HasObs("docs") => \A d \in DOMAIN Obs.docs :
       Must(Obs.docs[d] = s.docs[d], "docs", d, s.docs[d], Obs.docs[d])

Adopt(x) ==
  [index |-> IF ~HasObs("post") THEN x.index ELSE
               [f \in Fields |-> IF f \in DOMAIN Obs.post
                                 THEN [t \in DOMAIN x.index[f] |-> IF t \in DOMAIN Obs.post[f] THEN Range(Obs.post[f][t]) ELSE x.index[f][t]]
                                 ELSE x.index[f]],
   size |-> IF HasObs("size") THEN [f \in Fields |-> Obs.size[f]] ELSE x.size,
   len  |-> IF HasObs("size") THEN [f \in Fields |-> Obs.len[f]] ELSE x.len,
   df   |-> IF HasObs("size") THEN [f \in Fields |-> [t \in DOMAIN x.df[f] |-> Obs.df[f][t]]] ELSE x.df,
   docs |-> IF HasObs("docs") THEN [d \in Docs |-> IF d \in DOMAIN Obs.docs THEN Obs.docs[d] ELSE x.docs[d]] ELSE x.docs]

(* The folder, opened again, holds recent true values.                       *)
Idx(S) == {i + flo.base : i \in S}
Vers(i) == past[i - flo.base].s
RecentDocs(d) == {i \in Idx(In(WINDOW)) : i >= flo.docs[d] /\ Vers(i).docs[d] = Obs.docs[d]}
RecentMet(f) == {i \in Idx(In(WINDOW)) : /\ i >= flo.met[f] /\ Vers(i).size[f] = Obs.size[f]
                                         /\ Vers(i).len[f] = Obs.len[f]}
RecentDf(f, t) == {i \in Idx(In(WINDOW)) : i >= flo.df[f][t] /\ Vers(i).df[f][t] = Obs.df[f][t]}
Sure(f, t) == {d \in s.index[f][t] : d \in flo.post[f][t] \/ \A x \in Window : d \in x.index[f][t]}
Maybe(f, t) == UNION {x.index[f][t] : x \in Window}

RecoveredOk ==
  IF ~E.ok THEN Say("open", E.k, "opens", E.err)
  ELSE
  /\ \A f \in Fields :
       /\ Must(DOMAIN Obs.df[f] \subseteq DOMAIN s.df[f], "rdf", f, DOMAIN s.df[f], DOMAIN Obs.df[f])
       /\ f \notin taint =>
            Must(RecentMet(f) # {}, "rmet", f, {<<x.size[f], x.len[f]>> : x \in Window}, <<Obs.size[f], Obs.len[f]>>)
       /\ \A t \in DOMAIN s.df[f] :
            /\ f \notin taint =>
                 Must(RecentDf(f, t) # {}, "rdf", <<f, t>>, {x.df[f][t] : x \in Window}, Obs.df[f][t])
            /\ LET got == Range(Obs.post[f][t]) IN
                 /\ Must(Sure(f, t) \subseteq got, "rpostlost", <<f, t>>, Sure(f, t), got)
                 /\ Must(got \ dropped[f][t] \subseteq Maybe(f, t), "rpostnew", <<f, t>>, Maybe(f, t), got)
                 (* Known finding KF-1: removing a posting is never persisted. *)
                 /\ Must(got \cap dropped[f][t] \subseteq Maybe(f, t), "kf1", <<f, t>>, Maybe(f, t), got)
                 /\ HasObs("idx") => Must(At(Obs.idx[f], t) = got, "idx", <<f, t>>, got, At(Obs.idx[f], t))
       /\ HasObs("idx") => Must(DOMAIN Obs.idx[f] \subseteq DOMAIN s.df[f], "idx", f, DOMAIN s.df[f], DOMAIN Obs.idx[f])
  /\ \A d \in Docs : Must(RecentDocs(d) # {}, "rdocs", d, {x.docs[d] : x \in Window}, Obs.docs[d])

Least(S, dflt) == IF S = {} THEN dflt ELSE CHOOSE i \in S : \A j \in S : i <= j
Raised ==
  [base |-> flo.base,
   docs |-> [d \in Docs |-> Least(RecentDocs(d), flo.docs[d])],
   met  |-> [f \in Fields |-> Least(RecentMet(f), flo.met[f])],
   df   |-> [f \in Fields |-> [t \in DOMAIN s.df[f] |-> Least(RecentDf(f, t), flo.df[f][t])]],
   post |-> [f \in Fields |-> [t \in DOMAIN s.index[f] |-> flo.post[f][t] \cup Range(Obs.post[f][t])]]]

----------------------------------------------------------------------------
Begin ==
  /\ E.k = "begin"
  /\ LET b == Blank(Range(E.docs), Range(E.fields), Range(E.terms)) IN
     /\ s' = b /\ past' = <<[at |-> Forever, s |-> b]>>
     /\ ever' = b.index /\ dropped' = b.index /\ flo' = NoFloor(b)
  /\ clock' = 0 /\ taint' = {} /\ gen' = 0 /\ tid' = E.tid /\ kept' = {} /\ calm' = Forever

Become(x, between) ==
  /\ s' = x
  /\ past' = Push(past \o [i \in 1..Len(between) |-> [at |-> clock, s |-> between[i]]], x)
  /\ ever' = [f \in Fields |-> [t \in DOMAIN x.index[f] |-> ever[f][t] \cup x.index[f][t]]]
  /\ dropped' = [f \in Fields |-> [t \in DOMAIN x.index[f] |->
                    (dropped[f][t] \cup s.index[f][t]) \ x.index[f][t]]]

SaveEv ==
  /\ E.k = "save"
  /\ Must(E.kept, "argsave", E.d, "the caller's document as it was", "changed")
  (* field by field: a background save may fall in between *)
  /\ Become(SaveAll(s, E.d, E.fs), [i \in 1..(Len(E.fs) - 1) |-> SaveAll(s, E.d, SubSeq(E.fs, 1, i))])
  (* After a crash the counters of a field may not fit its documents; then a *)
  (* replacement makes them something the specification does not determine.  *)
  /\ taint' = taint \cup {f \in {E.fs[i].f : i \in 1..Len(E.fs)} :
                             gen > 0 /\ Has(s, E.d, f) /\
                             ~(/\ s.size[f] = DerivedSize(s, f) /\ s.len[f] = DerivedLen(s, f)
                               /\ \A t \in DOMAIN s.df[f] : s.df[f][t] = DerivedDf(s, f, t))}
  /\ UNCHANGED <<clock, flo, gen, tid>>
(* Many documents, a field each, one after the other.                        *)
SaveMany ==
  /\ E.k = "savemany"
  /\ gen = 0
  /\ Become(SaveEach(s, E.all), <<>>)
  /\ UNCHANGED <<clock, taint, flo, gen, tid>>
PostEv == /\ E.k = "post"
          /\ Become(Post(s, E.d, E.f, Range(E.ts)), <<>>)
          /\ UNCHANGED <<clock, taint, flo, gen, tid>>
Adv == /\ E.k = "adv"
       /\ clock' = clock + E.n
       /\ past' = Prune(past, clock + E.n)
       /\ flo' = [flo EXCEPT !.base = @ + (Len(past) - Len(past'))]
       /\ UNCHANGED <<s, ever, dropped, taint, gen, tid>>
ObsEv == /\ E.k = "obs"
         /\ LiveOk
         /\ LET x == Adopt(s) IN
            /\ s' = x
            /\ past' = IF x = s THEN past ELSE [past EXCEPT ![Len(past)].s = x]
            /\ ever' = [f \in Fields |-> [t \in DOMAIN x.index[f] |-> ever[f][t] \cup x.index[f][t]]]
         /\ UNCHANGED <<clock, dropped, flo, taint, gen, tid>>
Peek == /\ E.k = "peek"
        /\ RecoveredOk
        /\ flo' = IF E.sub \/ ~E.ok THEN flo ELSE Raised
        /\ UNCHANGED <<s, past, clock, ever, dropped, taint, gen, tid>>
Reopen == /\ E.k = "reopen"
          /\ RecoveredOk
          /\ LET x == IF E.ok THEN ObsState(Obs) ELSE s IN
             /\ s' = x /\ past' = <<[at |-> Forever, s |-> x]>>
             /\ ever' = [f \in Fields |-> [t \in DOMAIN x.index[f] |-> ever[f][t] \cup x.index[f][t]]]
             /\ flo' = NoFloor(x)
          /\ gen' = gen + 1
          /\ UNCHANGED <<clock, dropped, taint, tid>>
Merged ==
  /\ E.k = "merged"
  /\ IF ~E.ok THEN Say("merged", E.k, "reads", E.err)
     ELSE \A f \in Fields : \A t \in DOMAIN s.index[f] \cup DOMAIN Obs[f] :
       LET got == At(Obs[f], t)
           sure == IF clock - calm < MERGEWINDOW THEN {}
                   ELSE {d \in s.index[f][t] : \A i \in In(MERGEWINDOW) : d \in past[i].s.index[f][t]} IN
       IF t \notin DOMAIN s.index[f] THEN Say("mergednew", <<f, t>>, {}, got)
       ELSE /\ Must(sure \subseteq got, "mergedlost", <<f, t>>, sure, got)
            /\ Must(got \subseteq ever[f][t], "mergednew", <<f, t>>, ever[f][t], got)
  /\ UNCHANGED <<s, past, clock, ever, dropped, flo, taint, gen, tid>>

----------------------------------------------------------------------------
Consistent(f) == /\ f \notin taint /\ s.size[f] = DerivedSize(s, f) /\ s.len[f] = DerivedLen(s, f)
                 /\ \A t \in DOMAIN s.df[f] : s.df[f][t] = DerivedDf(s, f, t)
QF == {E.q[i].f : i \in 1..Len(E.q)}
HitsOf(q) == UNION {Matches(s, q[i].f, q[i].ts) : i \in 1..Len(q)}
Count(s1, f, t) == IF t \in DOMAIN s1.df[f] THEN s1.df[f][t] ELSE 0
Parts(d, found) == [i \in 1..Len(E.q) |->
  IF d \notin found[i] THEN <<>> ELSE
  LET q == E.q[i]
      v == s.docs[d][q.f]
      ts == SelectSeq(q.ts, LAMBDA t : t \in DOMAIN v.tf)
  IN [j \in 1..Len(ts) |-> [b |-> q.b, N |-> s.size[q.f], n |-> Count(s, q.f, ts[j]),
                            tf |-> v.tf[ts[j]], len |-> v.len, tot |-> s.len[q.f]]]]
Search ==
  /\ E.k = "search"
  (* bound to a value, so that it is worked out once *)
  /\ \A found \in {[i \in 1..Len(E.q) |-> Matches(s, E.q[i].f, E.q[i].ts)]} :
     LET res == E.res
         got == Range(res)
         hits == UNION {found[i] : i \in 1..Len(E.q)} IN
     /\ Must(E.kept, "argquery", E.q, "the caller's query as it was", "changed")
     /\ Must(got = hits, "hits", E.q, hits, res)
     /\ Must(Cardinality(got) = Len(res), "once", E.q, "each once", res)
     /\ \A i \in 1..(Len(res) - 1) :
          Must(\/ E.rank[i] < E.rank[i+1]
               \/ E.rank[i] = E.rank[i+1] /\ E.ord[i] < E.ord[i+1], "order", E.q, "by score, then id", res)
     /\ \A i \in 1..Len(E.raw) :
          LET r == E.raw[i] IN
          /\ Must(DOMAIN r.docs = Matches(s, r.f, r.ts), "rawhits", r, Matches(s, r.f, r.ts), DOMAIN r.docs)
          /\ \A d \in DOMAIN r.docs \cap Holders(s, r.f) :
               Must(r.docs[d] = s.docs[d][r.f], "rawdoc", d, s.docs[d][r.f], r.docs[d])
          /\ r.f \notin taint =>
               /\ Must(r.N = s.size[r.f], "rawstat", r, s.size[r.f], r.N)
               /\ Must(r.N = 0 \/ r.tot = s.len[r.f], "rawstat", r, s.len[r.f], r.tot)
               /\ \A j \in 1..Len(r.ts) :
                    Must(r.ts[j] \in DOMAIN r.df /\ r.df[r.ts[j]] = Count(s, r.f, r.ts[j]), "rawstat", r,
                         Count(s, r.f, r.ts[j]), r.df)
     /\ IF got = hits /\ Len(res) > 0 /\ \A f \in QF : Consistent(f)
        THEN CSVWrite("%1$s", <<ToJson([l |-> l, tid |-> tid, parts |-> [i \in 1..Len(res) |-> Parts(res[i], found)]])>>,
                      IOEnv.SCOREOUT)
        ELSE TRUE
  /\ UNCHANGED <<s, past, clock, ever, dropped, flo, taint, gen, tid>>

(* The same searches, several times each and all at once.                    *)
Searches ==
  /\ E.k = "searches"
  /\ \A i \in 1..Len(E.qs) :
       /\ Must(Len(E.answers[i]) = 1, "differs", E.qs[i], "one answer", E.answers[i])
       /\ \A j \in 1..Len(E.answers[i]) :
            Must(Range(E.answers[i][j].res) = HitsOf(E.qs[i]) /\ Cardinality(HitsOf(E.qs[i])) = Len(E.answers[i][j].res),
                 "parhits", E.qs[i], HitsOf(E.qs[i]), E.answers[i][j].res)
  /\ Must(E.left = 0, "leak", "goroutines", 0, E.left)
  /\ UNCHANGED <<s, past, clock, ever, dropped, flo, taint, gen, tid>>

(* After quiet seconds: what the store keeps depends on what it holds, not on  *)
(* how often that was saved, merged and reopened.                            *)
Holding == [docs |-> [d \in Docs |-> DOMAIN s.docs[d]],
            terms |-> [f \in Fields |-> {t \in DOMAIN ever[f] : ever[f][t] # {}}]]
Census ==
  /\ E.k = "census"
  /\ \A c \in kept :
       /\ c.holding = Holding => Must(c.files = E.files /\ c.dirs = E.dirs, "debris", Holding, <<c.files, c.dirs>>, <<E.files, E.dirs>>)
       /\ c.gen = gen => Must(c.running = E.running, "working", gen, c.running, E.running)
  /\ kept' = kept \cup {[holding |-> Holding, gen |-> gen, files |-> E.files, dirs |-> E.dirs, running |-> E.running]}
  /\ UNCHANGED <<s, past, clock, ever, dropped, flo, taint, gen, tid>>

(* Failures of the file system: the store may refuse to open, or stop (what   *)
(* it leaves behind is looked at like after any crash), but goes on right.    *)
(* Merging catches up once they are over.                                    *)
Trouble ==
  /\ E.k \in {"fault", "mend", "refused", "died"}
  /\ calm' = clock
  /\ UNCHANGED <<s, past, clock, ever, dropped, flo, taint, gen, tid, kept>>

(* What the driver saw itself: a panic, a call that never came back, a file  *)
(* touched outside the store's folder.                                       *)
Bad == /\ E.k = "bad"
       /\ Say(E.cat, E.what, "never", "happened")
       /\ UNCHANGED <<s, past, clock, ever, dropped, flo, taint, gen, tid>>

Init == /\ l = 1 /\ s = Blank({}, {}, {}) /\ past = <<[at |-> Forever, s |-> s]>>
        /\ clock = 0 /\ ever = EmptyFn /\ dropped = EmptyFn /\ flo = NoFloor(s) /\ taint = {} /\ gen = 0 /\ tid = 0 /\ kept = {} /\ calm = Forever
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \/ Begin
           \/ Census /\ UNCHANGED calm
           \/ Trouble
           \/ (SaveEv \/ SaveMany \/ PostEv \/ Adv \/ ObsEv \/ Peek \/ Reopen \/ Merged \/ Search \/ Searches \/ Bad) /\ UNCHANGED <<kept, calm>>
Spec == Init /\ [][Next]_vars
(* Every event was an action of the specification.                           *)
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
