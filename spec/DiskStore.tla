------------------------------ MODULE DiskStore ------------------------------
(* The disk store (storage/DiskStorage.go, storage/DiskIO.go) at the grain   *)
(* of its channel sends, background saves and file operations.               *)
(*                                                                           *)
(* SaveOrUpdate changes memory under a lock and hands what changed to four   *)
(* background savers: M (size and length of a field), I (new postings), N    *)
(* (documents per term), D (whole documents). Each saver buffers and, when   *)
(* its tick is due, writes one file at a time; a fifth, G, merges the        *)
(* fragments that I wrote into the field's index file. The process may stop  *)
(* between any two steps; Open is what a new process does with the folder,   *)
(* and is itself a merge that can be stopped.                                *)
(*                                                                           *)
(* Checked in every reachable state: a process that would open the folder    *)
(* now finds, item by item, a value that was current during the last W ticks *)
(* (Recoverable), a reader of the living process finds the latest version of *)
(* every document wherever it is (ReadsLatest), nothing that was durable is  *)
(* lost (DurableStays). PARTS selects the savers in play, as they touch      *)
(* disjoint files; BUG plants a known slip, to show that each is seen.       *)
EXTENDS StoreCore, Integers, TLC
CONSTANTS Docs, Fields, Terms, PARTS, BUG,
          PM, PN, PD, PI, PG, \* ticks between the saves of each kind
          W,                  \* the durability window
          MaxSaves, MaxClock, MaxCrashes, MaxFaults
ASSUME W > PM /\ W > PN /\ W > PD /\ W > PI

VARIABLES
  s,       \* what the documents and counters should be (the abstract state)
  todo,    \* steps of the save in progress, in the order of the code
  chI,     \* postings sent, not yet received by their saver (buffered channel)
  bufM, bufN, bufI,          \* buffers of the savers
  pend,                      \* documents not on disk yet
  cache,                     \* documents in the cache
  fM, fN, fD, fI, frags,     \* the files
  torn,                      \* a fragment that is only half there
  job,     \* what each saver is doing: the files it still has to write
  mrg,     \* the merge: [at |-> "idle" | "read" | "saved", ...]
  clock, due, past, saves, crashes, up,
  faults, failed, \* failures of the file system, and when the last merge failed
  gaveup          \* merges are not tried again
mem == <<s, todo, chI, bufM, bufN, bufI, pend, cache, job, mrg>>
disk == <<fM, fN, fD, fI, frags, torn>>
vars == <<s, todo, chI, bufM, bufN, bufI, pend, cache, fM, fN, fD, fI, frags, torn,
          job, mrg, clock, due, past, saves, crashes, up, faults, failed, gaveup>>

Vals == {[len |-> Cardinality(T), tf |-> [t \in T |-> 1]] : T \in SUBSET Terms}
Idle == [at |-> "idle"]
NoPost == [f \in Fields |-> [t \in Terms |-> {}]]
B0 == Blank(Docs, Fields, Terms)
Early == 0 - 100
Savers == PARTS \cap {"M", "N", "D", "I"}
Period(k) == CASE k = "M" -> PM [] k = "N" -> PN [] k = "D" -> PD [] k = "I" -> PI [] k = "G" -> PG
Timers == Savers \cup (IF "I" \in PARTS THEN {"G"} ELSE {})

Init ==
  /\ s = B0 /\ todo = <<>> /\ chI = {} /\ bufM = EmptyFn /\ bufN = [f \in Fields |-> EmptyFn]
  /\ bufI = NoPost /\ pend = EmptyFn /\ cache = EmptyFn
  /\ fM = EmptyFn /\ fN = [f \in Fields |-> EmptyFn] /\ fD = EmptyFn
  /\ fI = NoPost /\ frags = {} /\ torn = FALSE
  /\ job = [k \in Savers |-> {}] /\ mrg = Idle
  /\ clock = 0 /\ due = {} /\ past = <<[at |-> Early, s |-> B0]>>
  /\ saves = 0 /\ crashes = 0 /\ up = TRUE /\ faults = 0 /\ failed = Early /\ gaveup = FALSE

(* What a reader finds: cache, then documents waiting to be saved, then disk. *)
ReadDoc(d) == IF d \in DOMAIN cache THEN cache[d]
              ELSE IF d \in DOMAIN pend THEN pend[d]
              ELSE IF d \in DOMAIN fD THEN fD[d] ELSE EmptyFn

----------------------------------------------------------------------------
(* Saving: memory changes at once (the lock is held until the last step).     *)
Ts(q, S) == LET RECURSIVE Go(_)
                Go(X) == IF X = {} THEN <<>>
                         ELSE LET x == CHOOSE y \in X : TRUE IN <<<<q, x>>>> \o Go(X \ {x})
            IN Go(S)
Only(q) == SelectSeq(q, LAMBDA x : x[1] \in PARTS)
Start(d, f, v) ==
  /\ up /\ todo = <<>> /\ saves < MaxSaves
  /\ LET old == FieldOf(s, d, f)
         n == Save(s, d, f, v)
         changed == (DOMAIN v.tf \ DOMAIN old.tf) \cup (DOMAIN old.tf \ DOMAIN v.tf)
     IN /\ s' = n
        /\ todo' = Only(<<<<"M", f>>>> \o Ts("I", {<<f, t, d>> : t \in DOMAIN v.tf})
                        \o Ts("N", {<<f, t>> : t \in changed}) \o <<<<"D", d, f, v>>>>)
        /\ past' = Append(past, [at |-> clock, s |-> n])
  /\ saves' = saves + 1
  /\ UNCHANGED <<chI, bufM, bufN, bufI, pend, cache, job, mrg, clock, due, crashes, up>> /\ UNCHANGED disk
StepSave ==
  /\ up /\ todo # <<>>
  /\ LET x == Head(todo) IN
     /\ bufM' = IF x[1] = "M" THEN With(bufM, x[2], <<s.size[x[2]], s.len[x[2]]>>) ELSE bufM
     /\ chI'  = IF x[1] = "I" THEN chI \cup {x[2]} ELSE chI
     /\ bufN' = IF x[1] = "N" THEN [bufN EXCEPT ![x[2][1]] = With(@, x[2][2], s.df[x[2][1]][x[2][2]])] ELSE bufN
     /\ IF x[1] = "D"
        THEN LET base == IF BUG = "partial_update"
                         THEN (IF x[2] \in DOMAIN cache THEN cache[x[2]] ELSE EmptyFn)
                         ELSE ReadDoc(x[2])
                 rec == With(base, x[3], x[4])
             IN /\ cache' = With(cache, x[2], rec)
                /\ pend' = IF BUG = "no_pending" THEN pend ELSE With(pend, x[2], rec)
        ELSE UNCHANGED <<cache, pend>>
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<s, bufI, job, mrg, clock, due, past, saves, crashes, up>> /\ UNCHANGED disk
(* The posting saver takes a posting from its channel.                        *)
Receive == /\ up /\ chI # {}
           /\ \E p \in chI : /\ chI' = chI \ {p}
                             /\ bufI' = [bufI EXCEPT ![p[1]][p[2]] = @ \cup {p[3]}]
           /\ UNCHANGED <<s, todo, bufM, bufN, pend, cache, job, mrg, clock, due, past, saves, crashes, up>> /\ UNCHANGED disk
(* The cache may forget any document, and learns one that is read.            *)
Evict == /\ up /\ \E d \in DOMAIN cache : cache' = [x \in DOMAIN cache \ {d} |-> cache[x]]
         /\ UNCHANGED <<s, todo, chI, bufM, bufN, bufI, pend, job, mrg, clock, due, past, saves, crashes, up>> /\ UNCHANGED disk

----------------------------------------------------------------------------
(* Background saves. A tick that is due starts a job over what is buffered.   *)
Without(fn, k) == [x \in DOMAIN fn \ {k} |-> fn[x]]
Begin(k) ==
  /\ up /\ k \in due /\ k \in Savers
  /\ due' = due \ {k}
  /\ job' = [job EXCEPT ![k] =
       CASE k = "M" -> {<<f>> : f \in DOMAIN bufM}
         [] k = "N" -> {<<f>> : f \in {g \in Fields : DOMAIN bufN[g] # {}}}
         [] k = "D" -> {<<d>> : d \in DOMAIN pend}
         [] k = "I" -> {<<f>> : f \in {g \in Fields : \E t \in Terms : bufI[g][t] # {}}}]
  /\ UNCHANGED <<s, todo, chI, bufM, bufN, bufI, pend, cache, mrg, clock, past, saves, crashes, up>> /\ UNCHANGED disk
(* Replacing a file is one step, unless it is planted not to be.              *)
Write(k) ==
  /\ up /\ k \in Savers
  /\ \E x \in job[k] :
     /\ job' = [job EXCEPT ![k] = @ \ {x}]
     /\ CASE k = "M" -> /\ fM' = With(fM, x[1], bufM[x[1]])
                        /\ bufM' = Without(bufM, x[1])
                        /\ UNCHANGED <<bufN, bufI, pend, fN, fD, frags, torn>>
          [] k = "N" -> /\ fN' = [fN EXCEPT ![x[1]] =
                                    IF BUG = "nf_overwrite" THEN bufN[x[1]]
                                    ELSE [t \in DOMAIN @ \cup DOMAIN bufN[x[1]] |->
                                            IF t \in DOMAIN bufN[x[1]] THEN bufN[x[1]][t] ELSE @[t]]]
                        /\ bufN' = [bufN EXCEPT ![x[1]] = EmptyFn]
                        /\ UNCHANGED <<bufM, bufI, pend, fM, fD, frags, torn>>
          [] k = "D" -> /\ IF BUG = "delete_then_write" /\ x[1] \in DOMAIN fD /\ fD[x[1]] # pend[x[1]]
                           THEN /\ fD' = Without(fD, x[1]) /\ pend' = pend
                           ELSE /\ fD' = With(fD, x[1], pend[x[1]]) /\ pend' = Without(pend, x[1])
                        /\ UNCHANGED <<bufM, bufN, bufI, fM, fN, frags, torn>>
          [] k = "I" -> /\ IF BUG = "fragment_in_place" /\ ~torn
                           THEN torn' = TRUE /\ UNCHANGED <<frags, bufI>>
                           ELSE /\ frags' = frags \cup {[f |-> x[1], p |-> bufI[x[1]]]}
                                /\ torn' = FALSE
                                /\ bufI' = [bufI EXCEPT ![x[1]] = [t \in Terms |-> {}]]
                        /\ UNCHANGED <<bufM, bufN, pend, fM, fN, fD>>
  /\ UNCHANGED <<s, todo, chI, cache, fI, mrg, clock, due, past, saves, crashes, up>>
(* The slip that writes in two steps must be able to go on.                   *)
Again(k) ==
  /\ up /\ k \in Savers /\ job[k] = {} /\ BUG \in {"delete_then_write", "fragment_in_place"}
  /\ \/ k = "D" /\ \E d \in DOMAIN pend : d \notin DOMAIN fD /\ job' = [job EXCEPT ![k] = {<<d>>}]
     \/ k = "I" /\ torn /\ job' = [job EXCEPT ![k] = {<<f>> : f \in {g \in Fields : \E t \in Terms : bufI[g][t] # {}}}]
  /\ UNCHANGED <<s, todo, chI, bufM, bufN, bufI, pend, cache, mrg, clock, due, past, saves, crashes, up>> /\ UNCHANGED disk

(* Merging one field: read the index file and the fragments there are, write  *)
(* the union, delete the fragments read. Other steps come in between.         *)
Union(p, q) == [t \in Terms |-> p[t] \cup q[t]]
RECURSIVE UnionAll(_, _)
UnionAll(p, F) == IF F = {} THEN p
                  ELSE LET x == CHOOSE y \in F : TRUE IN
                       UnionAll(IF BUG = "merge_replaces"
                                THEN [t \in Terms |-> IF x.p[t] # {} THEN x.p[t] ELSE p[t]]
                                ELSE Union(p, x.p), F \ {x})
MergeRead(f) ==
  /\ mrg.at = "idle"
  /\ LET F == {x \in frags : x.f = f} IN
     mrg' = [at |-> IF BUG = "merge_deletes_first" THEN "del" ELSE "read", f |-> f, F |-> F, u |-> UnionAll(fI[f], F)]
MergeSave == /\ mrg.at = "read"
             /\ fI' = [fI EXCEPT ![mrg.f] = mrg.u]
             /\ mrg' = IF BUG = "merge_deletes_first" THEN Idle ELSE [mrg EXCEPT !.at = "del"]
MergeDelete ==
  /\ mrg.at = "del"
  /\ LET F == IF BUG = "merge_deletes_all" THEN {x \in frags : x.f = mrg.f} ELSE mrg.F IN
     IF F \cap frags = {} THEN /\ mrg' = IF BUG = "merge_deletes_first" THEN [mrg EXCEPT !.at = "read"] ELSE Idle
                               /\ UNCHANGED frags
     ELSE \E x \in F \cap frags : frags' = frags \ {x} /\ mrg' = mrg
Merge ==
  /\ up
  /\ \/ /\ "G" \in due /\ ~gaveup /\ due' = due \ {"G"} /\ \E f \in Fields : MergeRead(f)
        /\ UNCHANGED <<fI, frags>>
     \/ MergeSave /\ UNCHANGED <<frags, due>>
     \/ MergeDelete /\ UNCHANGED <<fI, due>>
     \/ /\ "G" \in due /\ gaveup /\ due' = due \ {"G"}
        /\ UNCHANGED <<fI, frags, mrg>>
  /\ UNCHANGED <<s, todo, chI, bufM, bufN, bufI, pend, cache, job, fM, fN, fD, torn, clock, past, saves, crashes, up>>

----------------------------------------------------------------------------
(* The file system fails. A saver that cannot write ends the process (that is *)
(* Crash); a merge that cannot go on leaves everything to the next one; a     *)
(* document that cannot be read ends the process, as it must not be taken for *)
(* one that does not exist.                                                   *)
MergeFails ==
  /\ up /\ mrg # Idle /\ faults < MaxFaults
  /\ faults' = faults + 1 /\ failed' = clock
  /\ mrg' = Idle /\ gaveup' = (BUG = "merge_gives_up")
  /\ UNCHANGED <<s, todo, chI, bufM, bufN, bufI, pend, cache, job, clock, due, past, saves, crashes, up>> /\ UNCHANGED disk
ReadFails ==
  /\ up /\ todo # <<>> /\ faults < MaxFaults /\ BUG = "unread_is_absent"
  /\ LET x == Head(todo) IN
     /\ x[1] = "D" /\ x[2] \notin DOMAIN cache /\ x[2] \notin DOMAIN pend
     /\ cache' = With(cache, x[2], With(EmptyFn, x[3], x[4]))
     /\ pend' = With(pend, x[2], With(EmptyFn, x[3], x[4]))
  /\ todo' = Tail(todo) /\ faults' = faults + 1
  /\ UNCHANGED <<s, chI, bufM, bufN, bufI, job, mrg, clock, due, past, saves, crashes, up, failed, gaveup>> /\ UNCHANGED disk

----------------------------------------------------------------------------
(* Time passes only when every tick that was due has been served.             *)
Busy == todo # <<>> \/ chI # {} \/ due # {} \/ mrg # Idle \/ torn \/ \E k \in Savers : job[k] # {}
Tick ==
  /\ up /\ ~Busy /\ clock < MaxClock
  /\ clock' = clock + 1
  /\ due' = {k \in Timers : (clock + 1) % Period(k) = 0}
  /\ LET keep == {i \in 1..Len(past) : i = Len(past) \/ past[i+1].at > clock + 1 - W}
         lo == CHOOSE i \in keep : \A j \in keep : i <= j
     IN past' = SubSeq(past, lo, Len(past))
  /\ UNCHANGED <<s, todo, chI, bufM, bufN, bufI, pend, cache, job, mrg, saves, crashes, up>> /\ UNCHANGED disk

(* The process stops: the files stay.                                         *)
Crash ==
  /\ up /\ crashes < MaxCrashes
  /\ up' = FALSE /\ crashes' = crashes + 1
  /\ todo' = <<>> /\ chI' = {} /\ bufM' = EmptyFn /\ bufN' = [f \in Fields |-> EmptyFn] /\ bufI' = NoPost
  /\ pend' = EmptyFn /\ cache' = EmptyFn /\ job' = [k \in Savers |-> {}] /\ mrg' = Idle /\ due' = {}
  /\ UNCHANGED <<s, clock, past, saves>> /\ UNCHANGED disk

(* What the files say.                                                        *)
FragsOf(f) == {x \in frags : x.f = f}
RECURSIVE JoinAll(_, _)
JoinAll(p, F) == IF F = {} THEN p ELSE LET x == CHOOSE y \in F : TRUE IN JoinAll(Union(p, x.p), F \ {x})
OnDisk ==
  [index |-> [f \in Fields |-> JoinAll(fI[f], FragsOf(f))],
   size |-> [f \in Fields |-> IF f \in DOMAIN fM THEN fM[f][1] ELSE 0],
   len  |-> [f \in Fields |-> IF f \in DOMAIN fM THEN fM[f][2] ELSE 0],
   df   |-> [f \in Fields |-> [t \in Terms |-> IF t \in DOMAIN fN[f] THEN fN[f][t] ELSE 0]],
   docs |-> [d \in Docs |-> IF d \in DOMAIN fD THEN fD[d] ELSE EmptyFn]]
(* Opening merges every field (and may be stopped on the way), then reads.    *)
OpenMerge == /\ ~up
             /\ \/ /\ \E f \in Fields : FragsOf(f) # {} /\ MergeRead(f)
                   /\ UNCHANGED <<fI, frags>>
                \/ MergeSave /\ UNCHANGED frags
                \/ MergeDelete /\ UNCHANGED fI
             /\ UNCHANGED <<s, todo, chI, bufM, bufN, bufI, pend, cache, job, fM, fN, fD, torn, clock, due, past, saves, crashes, up>>
Open == /\ ~up /\ mrg = Idle /\ frags = {} /\ ~torn
        /\ up' = TRUE /\ s' = OnDisk
        /\ past' = <<[at |-> Early, s |-> OnDisk]>>
        /\ UNCHANGED <<todo, chI, bufM, bufN, bufI, pend, cache, job, mrg, clock, due, saves, crashes>> /\ UNCHANGED disk
CrashOpening == /\ ~up /\ mrg # Idle /\ mrg' = Idle
                /\ UNCHANGED <<s, todo, chI, bufM, bufN, bufI, pend, cache, job, clock, due, past, saves, crashes, up>> /\ UNCHANGED disk

Step == \/ \E d \in Docs, f \in Fields, v \in Vals : Start(d, f, v)
        \/ StepSave \/ Receive \/ Evict
        \/ \E k \in Savers : Begin(k) \/ Write(k) \/ Again(k)
        \/ Merge \/ Tick \/ Crash \/ OpenMerge \/ Open \/ CrashOpening
Next == (Step /\ UNCHANGED <<faults, failed>> /\ gaveup' = (gaveup /\ up')) \/ MergeFails \/ ReadFails
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Window == {past[i].s : i \in {j \in 1..Len(past) : j = Len(past) \/ past[j+1].at > clock - W}}
Sure(f, t) == {d \in s.index[f][t] : \A x \in Window : d \in x.index[f][t]}
Recoverable ==
  /\ ~torn
  /\ "I" \in PARTS => \A f \in Fields, t \in Terms : Sure(f, t) \subseteq OnDisk.index[f][t]
  /\ "M" \in PARTS => \A f \in Fields : \E x \in Window : x.size[f] = OnDisk.size[f] /\ x.len[f] = OnDisk.len[f]
  /\ "N" \in PARTS => \A f \in Fields, t \in Terms : \E x \in Window : x.df[f][t] = OnDisk.df[f][t]
  /\ "D" \in PARTS => \A d \in Docs : \E x \in Window : x.docs[d] = OnDisk.docs[d]
ReadsLatest == (up /\ "D" \in PARTS /\ todo = <<>>) => \A d \in Docs : ReadDoc(d) = s.docs[d]
(* Nothing is on disk that was never saved.                                   *)
NothingInvented == "I" \in PARTS => \A f \in Fields, t \in Terms :
  OnDisk.index[f][t] \subseteq Docs
(* A posting on disk stays on disk; so does a document's or a count's file.   *)
DurableStays ==
  [][/\ \A f \in Fields, t \in Terms : OnDisk.index[f][t] \subseteq OnDisk'.index[f][t]
     /\ DOMAIN fD \subseteq DOMAIN fD' /\ DOMAIN fM \subseteq DOMAIN fM'
     /\ \A f \in Fields : DOMAIN fN[f] \subseteq DOMAIN fN'[f]]_vars
(* Fragments do not pile up: some time after its last save every posting is   *)
(* in the index file.                                                         *)
Quiet == up /\ ~Busy /\ clock - past[Len(past)].at > PI + PG /\ clock - failed >= PG
MergedInTime == (Quiet /\ "I" \in PARTS) => \A f \in Fields, t \in Terms : s.index[f][t] \subseteq fI[f][t]
=============================================================================
