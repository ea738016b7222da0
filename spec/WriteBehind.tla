----------------------------- MODULE WriteBehind -----------------------------
(* The write-behind maps (cache/RCU.go, cache/Map.go): puts go through a     *)
(* bounded channel to one writer, which buffers them and, every PERIOD,      *)
(* publishes a copy of the map with the buffer applied. Readers only see     *)
(* what is published.                                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Keys, Writers, PERIOD, BOUND, Cap, MaxPuts, MaxClock, BUG
VARIABLES chan, buf, pub, clock, due, puts, pc, seen, tickAt
vars == <<chan, buf, pub, clock, due, puts, pc, seen, tickAt>>
None == 0
(* puts[k]: sequence of [v, done]: done is when the put ended (or no time)   *)
NotYet == 1000
Init == /\ chan = <<>> /\ buf = [k \in Keys |-> None] /\ pub = [k \in Keys |-> None]
        /\ clock = 0 /\ due = FALSE /\ puts = <<>> /\ pc = [w \in Writers |-> 0]
        /\ seen = [k \in Keys |-> None] /\ tickAt = PERIOD
(* A value is its put's number: puts[v].                                     *)
Put(w, k) == /\ pc[w] = 0 /\ Len(puts) < MaxPuts
             /\ puts' = Append(puts, [k |-> k, from |-> clock, to |-> NotYet,
                                      after |-> {i \in 1..Len(puts) : puts[i].k = k /\ puts[i].to # NotYet}])
             /\ pc' = [pc EXCEPT ![w] = Len(puts')]
             /\ UNCHANGED <<chan, buf, pub, clock, due, seen, tickAt>>
Send(w) == /\ pc[w] # 0
           /\ \/ Len(chan) < Cap /\ chan' = Append(chan, pc[w])
              \/ BUG = "drop_when_full" /\ Len(chan) >= Cap /\ chan' = chan
           /\ puts' = [puts EXCEPT ![pc[w]].to = clock]
           /\ pc' = [pc EXCEPT ![w] = 0]
           /\ UNCHANGED <<buf, pub, clock, due, seen, tickAt>>
Receive == /\ chan # <<>>
           /\ LET v == Head(chan)
                  k == puts[v].k IN
              buf' = [buf EXCEPT ![k] = IF BUG = "first_wins" /\ @ # None THEN @ ELSE v]
           /\ chan' = Tail(chan)
           /\ UNCHANGED <<pub, clock, due, puts, pc, seen, tickAt>>
Publish == /\ due /\ due' = FALSE
           /\ pub' = [k \in Keys |->
                IF buf[k] = None THEN (IF BUG = "publish_buffer_only" THEN None ELSE pub[k])
                ELSE IF BUG = "never" THEN pub[k]
                ELSE IF BUG = "old_wins" /\ pub[k] # None THEN pub[k] ELSE buf[k]]
           /\ buf' = [k \in Keys |-> None]
           /\ UNCHANGED <<chan, clock, puts, pc, seen, tickAt>>
(* The writer serves its channel before time passes.                         *)
Tick == /\ clock < MaxClock /\ ~due /\ chan = <<>> /\ \A w \in Writers : pc[w] = 0
        /\ clock' = clock + 1
        /\ due' = (clock + 1 = tickAt)
        /\ tickAt' = IF due' THEN tickAt + PERIOD ELSE tickAt
        /\ UNCHANGED <<chan, buf, pub, puts, pc, seen>>
Read(k) == /\ pub[k] # None /\ seen' = [seen EXCEPT ![k] = pub[k]] /\ seen # seen'
           /\ UNCHANGED <<chan, buf, pub, clock, due, puts, pc, tickAt>>
Next == \/ \E w \in Writers : Send(w) \/ \E k \in Keys : Put(w, k)
        \/ Receive \/ Publish \/ Tick \/ \E k \in Keys : Read(k)
Spec == Init /\ [][Next]_vars

Older(a, b) == a \in puts[b].after        \* a ended before b began
OwnValues == \A k \in Keys : pub[k] # None => puts[pub[k]].k = k
(* A put that ended BOUND ago is out, or a later one is.                     *)
Timely == \A v \in 1..Len(puts) :
            (puts[v].to # NotYet /\ clock > puts[v].to + BOUND)
              => pub[puts[v].k] # None /\ ~Older(pub[puts[v].k], v)
NeverBack == [][\A k \in Keys : pub[k] # None => pub'[k] # None /\ ~Older(pub'[k], pub[k])]_vars
=============================================================================
