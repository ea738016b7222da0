------------------------------ MODULE StoreConc ------------------------------
(* Calls on one disk store that overlap, at the grain of its lock and its    *)
(* channels, for one field. A save holds the store's lock (a lock of Go's    *)
(* kind: one that waits keeps new readers out) while it changes the size,    *)
(* the postings, the documents per term and the document, and hands each     *)
(* change to a background saver, which takes it only while it is not         *)
(* writing. A search looks its terms up, reads the documents found and then  *)
(* the statistics, each with the read lock for itself alone.                 *)
(* Checked: whenever no save is inside, everything read agrees with the      *)
(* versions saved (so each read is of one moment: Consistent); a search      *)
(* returns what had one of its terms all along, nothing that never had one,  *)
(* with statistics its scores are finite by (Answer); nothing gets stuck     *)
(* (no deadlock, as every behaviour is finite).                              *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Stale,     \* whether postings may be left from before a restart
          Writers,   \* each saves one document, its own
          Searchers, Terms, MaxSaves, MaxSearches, MaxTicks, BUG
VARIABLES size, post, df, doc,      \* the store's memory
          inside, waits, readers,   \* the lock
          saver, ticks,             \* the background saver: "takes" | "writes"
          w, s, saves, searches, val
mem == <<size, post, df, doc>>
lock == <<inside, waits, readers>>
vars == <<size, post, df, doc, inside, waits, readers, saver, ticks, w, s, saves, searches, val>>
None == {"none"}
Had(d) == IF doc[d] = None THEN {} ELSE doc[d]
Set(V) == IF V = None THEN {} ELSE V
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Map(q, k) == [i \in 1..Len(q) |-> [k |-> k, t |-> q[i]]]

Init == /\ size = 0 /\ post \in (IF Stale THEN [Terms -> SUBSET Writers] ELSE {[t \in Terms |-> {}]}) /\ df = [t \in Terms |-> 0] /\ doc = [d \in Writers |-> None]
        /\ inside = {} /\ waits = {} /\ readers = {} /\ saver = "takes" /\ ticks = 0
        /\ w = [x \in Writers |-> [pc |-> "idle"]] /\ s = [x \in Searchers |-> [pc |-> "idle"]]
        /\ saves = 0 /\ searches = 0 /\ val = [d \in Writers |-> None]

(* The steps of a save, in the order of the code.                            *)
Steps(x, T) ==
  LET old == Had(x) IN
  <<[k |-> "see", t |-> ""], [k |-> "size", t |-> ""]>>
  \o (IF BUG = "two_sections" THEN Map(SeqOf(old), "unpost") \o [i \in 1..3 |-> [k |-> <<"leave", "wait", "enter">>[i], t |-> ""]] ELSE <<>>)
  \o Map(SeqOf(T), "post")
  \o (IF BUG = "two_sections" THEN <<>> ELSE Map(SeqOf(old \ T), "unpost"))
  \o Map(SeqOf(T \ old), "more") \o Map(SeqOf(old \ T), "less") \o <<[k |-> "doc", t |-> ""]>>

MayEnter == inside = {} /\ readers = {}
Exclusive == BUG # "save_rlock"
MayRead == inside = {} /\ waits = {}

Hit(V, Q) == Set(V) \cap Q # {}
Poss(d) == {val[d]} \cup (IF w[d].pc \in {"want", "in", "out"} THEN {w[d].new} ELSE {})

SaveCall(x) ==
  /\ w[x].pc = "idle" /\ saves < MaxSaves /\ saves' = saves + 1
  /\ \E T \in SUBSET Terms :
       /\ w' = [w EXCEPT ![x] = [pc |-> "want", new |-> T, todo |-> <<>>, seen |-> 0]]
       /\ s' = [y \in Searchers |-> IF s[y].pc = "idle" THEN s[y] ELSE
                  [s[y] EXCEPT !.might = IF Hit(T, s[y].q) THEN @ \cup {x} ELSE @,
                               !.sure = {p \in @ : p[1] = x => p[2] \in T}]]
  /\ waits' = IF Exclusive THEN waits \cup {x} ELSE waits
  /\ UNCHANGED <<mem, inside, readers, saver, ticks, searches, val>>
Enter(x) ==
  /\ w[x].pc = "want"
  /\ IF Exclusive THEN MayEnter /\ inside' = {x} /\ waits' = waits \ {x} /\ UNCHANGED readers
     ELSE MayRead /\ readers' = readers \cup {x} /\ UNCHANGED <<inside, waits>>
  /\ w' = [w EXCEPT ![x] = [@ EXCEPT !.pc = "in", !.todo = Steps(x, w[x].new)]]
  /\ UNCHANGED <<mem, saver, ticks, s, saves, searches, val>>
(* A step changes memory and hands the change over.                          *)
Sends == {"size", "post", "more", "less"}
Do(x) ==
  /\ w[x].pc = "in" /\ w[x].todo # <<>>
  /\ LET a == Head(w[x].todo) IN
     /\ (a.k \in Sends => saver = "takes")
     /\ w' = [w EXCEPT ![x].todo = Tail(@), ![x].seen = IF a.k = "see" THEN size ELSE @]
     /\ size' = IF a.k = "size" /\ doc[x] = None THEN w[x].seen + 1 ELSE size
     /\ post' = IF a.k = "post" THEN [post EXCEPT ![a.t] = @ \cup {x}]
                ELSE IF a.k = "unpost" THEN [post EXCEPT ![a.t] = @ \ {x}] ELSE post
     /\ df' = IF a.k = "more" THEN [df EXCEPT ![a.t] = @ + 1]
              ELSE IF a.k = "less" THEN [df EXCEPT ![a.t] = @ - 1] ELSE df
     /\ doc' = IF a.k = "doc" THEN [doc EXCEPT ![x] = w[x].new] ELSE doc
     /\ CASE a.k = "leave" -> inside' = {} /\ UNCHANGED <<waits, readers>>
          [] a.k = "wait" -> waits' = waits \cup {x} /\ UNCHANGED <<inside, readers>>
          [] a.k = "enter" -> MayEnter /\ inside' = {x} /\ waits' = waits \ {x} /\ UNCHANGED readers
          [] OTHER -> UNCHANGED lock
  /\ UNCHANGED <<saver, ticks, s, saves, searches, val>>
SaveRet(x) ==
  /\ w[x].pc = "in" /\ w[x].todo = <<>>
  /\ inside' = inside \ {x} /\ readers' = readers \ {x}
  /\ val' = [val EXCEPT ![x] = w[x].new] /\ w' = [w EXCEPT ![x] = [pc |-> "idle"]]
  /\ UNCHANGED <<mem, waits, saver, ticks, s, saves, searches>>

(* The saver writes now and then, and takes nothing meanwhile.               *)
Tick == /\ saver = "takes" /\ ticks < MaxTicks /\ ticks' = ticks + 1 /\ saver' = "writes"
        /\ UNCHANGED <<mem, lock, w, s, saves, searches, val>>
Wrote == /\ saver = "writes" /\ saver' = "takes"
         /\ (BUG = "saver_reads" => MayRead)
         /\ UNCHANGED <<mem, lock, ticks, w, s, saves, searches, val>>

SearchCall(y) ==
  /\ s[y].pc = "idle" /\ searches < MaxSearches /\ searches' = searches + 1
  /\ \E Q \in (SUBSET Terms) \ {{}} :
       s' = [s EXCEPT ![y] = [pc |-> IF BUG = "stats_first" THEN "stats" ELSE "terms", q |-> Q, left |-> Q, found |-> {}, ans |-> {}, n |-> 0,
                              might |-> {d \in Writers : \E V \in Poss(d) : Hit(V, Q)},
                              sure |-> {p \in Writers \X Q : \A V \in Poss(p[1]) : p[2] \in Set(V)}]]
  /\ UNCHANGED <<mem, lock, saver, ticks, w, saves, val>>
(* What a search does while it holds the read lock.                          *)
Look(y) ==
  /\ y \in readers /\ UNCHANGED <<mem, inside, waits, saver, ticks, w, saves, searches, val>>
  /\ \/ /\ s[y].pc = "terms" /\ readers' = readers \ {y}
        /\ \E t \in s[y].left :
             LET found == s[y].found \cup post[t]
                 left == s[y].left \ {t} IN
             s' = [s EXCEPT ![y] = [@ EXCEPT !.found = found, !.left = IF left = {} THEN found ELSE left,
                                             !.pc = IF left # {} THEN "terms" ELSE IF found = {} THEN "stats2" ELSE "docs"]]
     \/ /\ s[y].pc = "docs"
        /\ IF BUG = "nested_read" THEN MayRead /\ readers' = readers \ {y} ELSE readers' = readers \ {y}
        /\ \E d \in s[y].left :
             LET left == s[y].left \ {d} IN
             s' = [s EXCEPT ![y] = [@ EXCEPT !.ans = IF doc[d] # None /\ (BUG = "no_filter" \/ Hit(doc[d], s[y].q)) THEN @ \cup {d} ELSE @,
                                             !.left = left, !.pc = IF left = {} THEN "stats2" ELSE "docs"]]
     \/ /\ s[y].pc \in {"stats", "stats2"} /\ readers' = readers \ {y}
        /\ s' = [s EXCEPT ![y] = [@ EXCEPT !.n = IF BUG = "stats_first" /\ s[y].pc = "stats2" THEN @ ELSE size,
                                           !.pc = IF s[y].pc = "stats" THEN "terms" ELSE "answer"]]
Read(y) ==
  /\ s[y].pc \notin {"idle", "answer"} /\ y \notin readers /\ MayRead
  /\ readers' = readers \cup {y}
  /\ UNCHANGED <<mem, inside, waits, saver, ticks, w, s, saves, searches, val>>
SearchRet(y) ==
  /\ s[y].pc = "answer" /\ s' = [s EXCEPT ![y] = [pc |-> "idle"]]
  /\ UNCHANGED <<mem, lock, saver, ticks, w, saves, searches, val>>
Over == /\ \A x \in Writers : w[x].pc = "idle"
        /\ \A y \in Searchers : s[y].pc = "idle"
        /\ UNCHANGED vars
Next == \/ \E x \in Writers : SaveCall(x) \/ Enter(x) \/ Do(x) \/ SaveRet(x)
        \/ \E y \in Searchers : SearchCall(y) \/ Read(y) \/ Look(y) \/ SearchRet(y)
        \/ Tick \/ Wrote \/ Over
Spec == Init /\ [][Next]_vars

Consistent ==
  (\A x \in Writers : w[x].pc # "in") =>
    /\ doc = val
    /\ size = Cardinality({d \in Writers : val[d] # None})
    /\ \A t \in Terms :
         LET having == {d \in Writers : t \in Set(val[d])} IN
         /\ IF Stale THEN having \subseteq post[t] ELSE having = post[t]
         /\ df[t] = Cardinality(having)
OneInside == Cardinality(inside) <= 1 /\ (inside # {} => readers = {})
Answer ==
  \A y \in Searchers : s[y].pc = "answer" =>
    /\ {p[1] : p \in s[y].sure} \subseteq s[y].ans
    /\ s[y].ans \subseteq s[y].might
    /\ (s[y].ans # {} => s[y].n > 0)
=============================================================================
