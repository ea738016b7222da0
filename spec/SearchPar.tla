----------------------------- MODULE SearchPar -----------------------------
(* How a search of one field runs: a worker per term looks its postings up   *)
(* (at most Slots workers at a time) and sends them one by one down a        *)
(* channel of bounded capacity; the caller collects each document once and   *)
(* deals them out to batches; a worker per batch reads the fields, again     *)
(* with a slot, and sends them down a second channel. Checked: it never gets *)
(* stuck, always ends with nothing left running, and the answer is the union *)
(* of the postings under every schedule.                                     *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Terms, Docs, Slots, Cap, Batches, BUG
VARIABLES post,            \* postings of each term
          w1, w2,          \* workers: state, what is left to send
          ch1, ch2,        \* channel contents
          open1, open2, used,
          main, seen, batch, answer
vars == <<post, w1, w2, ch1, ch2, open1, open2, used, main, seen, batch, answer>>
B == 1..Batches
Init == /\ post \in [Terms -> SUBSET Docs]
        /\ w1 = [t \in Terms |-> [pc |-> "start", left |-> {}]]
        /\ w2 = [b \in B |-> [pc |-> "none", left |-> {}]]
        /\ ch1 = <<>> /\ ch2 = <<>> /\ open1 = TRUE /\ open2 = TRUE /\ used = 0
        /\ main = (IF BUG = "collect_late" THEN "wait" ELSE "collect") /\ seen = {}
        /\ batch = [b \in B |-> {}] /\ answer = {}
Full(ch) == Len(ch) >= Cap

Start1(t) == /\ w1[t].pc = "start" /\ used < Slots /\ used' = used + 1
             /\ w1' = [w1 EXCEPT ![t] = [pc |-> "send", left |-> post[t]]]
             /\ UNCHANGED <<post, w2, ch1, ch2, open1, open2, main, seen, batch, answer>>
Send1(t) == /\ w1[t].pc = "send" /\ ~Full(ch1)
            /\ \E d \in w1[t].left : /\ ch1' = Append(ch1, d)
                                     /\ w1' = [w1 EXCEPT ![t].left = @ \ {d}]
            /\ UNCHANGED <<post, w2, ch2, open1, open2, used, main, seen, batch, answer>>
Done1(t) == /\ w1[t].pc = "send" /\ w1[t].left = {}
            /\ w1' = [w1 EXCEPT ![t].pc = "done"]
            /\ used' = IF BUG = "keep_slot" \/ (BUG = "keep_slot_if_none" /\ post[t] = {}) THEN used ELSE used - 1
            /\ UNCHANGED <<post, w2, ch1, ch2, open1, open2, main, seen, batch, answer>>
Close1 == /\ open1 /\ IF BUG = "close_early" THEN \E t \in Terms : w1[t].pc = "done"
                      ELSE \A t \in Terms : w1[t].pc = "done"
          /\ open1' = FALSE
          /\ UNCHANGED <<post, w1, w2, ch1, ch2, open2, used, main, seen, batch, answer>>
WaitFirst == /\ main = "wait" /\ ~open1 /\ main' = "collect"
             /\ UNCHANGED <<post, w1, w2, ch1, ch2, open1, open2, used, seen, batch, answer>>
Collect == /\ main = "collect" /\ ch1 # <<>>
           /\ LET d == Head(ch1)
                  b == 1 + (Cardinality(seen) % Batches) IN
              IF d \in seen THEN UNCHANGED <<seen, batch>>
              ELSE /\ seen' = seen \cup {d}
                   /\ batch' = IF BUG = "drop_rest" /\ Cardinality(seen) >= Batches THEN batch
                               ELSE [batch EXCEPT ![b] = @ \cup {d}]
           /\ ch1' = Tail(ch1)
           /\ UNCHANGED <<post, w1, w2, ch2, open1, open2, used, main, answer>>
Deal == /\ main = "collect" /\ ch1 = <<>> /\ ~open1
        /\ w2' = [b \in B |-> [pc |-> "start", left |-> {}]]
        /\ main' = (IF BUG = "gather_late" THEN "wait2" ELSE "gather")
        /\ UNCHANGED <<post, w1, ch1, ch2, open1, open2, used, seen, batch, answer>>
Start2(b) == /\ w2[b].pc = "start" /\ used < Slots /\ used' = used + 1
             /\ w2' = [w2 EXCEPT ![b] = [pc |-> "send", left |-> batch[b]]]
             /\ UNCHANGED <<post, w1, ch1, ch2, open1, open2, main, seen, batch, answer>>
Send2(b) == /\ w2[b].pc = "send" /\ ~Full(ch2)
            /\ \E d \in w2[b].left : /\ ch2' = Append(ch2, d)
                                     /\ w2' = [w2 EXCEPT ![b].left = @ \ {d}]
            /\ UNCHANGED <<post, w1, ch1, open1, open2, used, main, seen, batch, answer>>
Done2(b) == /\ w2[b].pc = "send" /\ w2[b].left = {}
            /\ w2' = [w2 EXCEPT ![b].pc = "done"] /\ used' = used - 1
            /\ UNCHANGED <<post, w1, ch1, ch2, open1, open2, main, seen, batch, answer>>
Close2 == /\ open2 /\ \A b \in B : w2[b].pc = "done"
          /\ open2' = FALSE
          /\ UNCHANGED <<post, w1, w2, ch1, ch2, open1, used, main, seen, batch, answer>>
Wait2 == /\ main = "wait2" /\ ~open2 /\ main' = "gather"
         /\ UNCHANGED <<post, w1, w2, ch1, ch2, open1, open2, used, seen, batch, answer>>
Gather == /\ main = "gather" /\ ch2 # <<>>
          /\ answer' = answer \cup {Head(ch2)} /\ ch2' = Tail(ch2)
          /\ UNCHANGED <<post, w1, w2, ch1, open1, open2, used, main, seen, batch>>
End == /\ main = "gather" /\ ch2 = <<>> /\ ~open2 /\ main' = "end"
       /\ UNCHANGED <<post, w1, w2, ch1, ch2, open1, open2, used, seen, batch, answer>>
Over == /\ main = "end" /\ UNCHANGED vars
Next == \/ \E t \in Terms : Start1(t) \/ Send1(t) \/ Done1(t)
        \/ \E b \in B : Start2(b) \/ Send2(b) \/ Done2(b)
        \/ Close1 \/ WaitFirst \/ Collect \/ Deal \/ Close2 \/ Wait2 \/ Gather \/ End \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* (Capacity len(terms) is 0 for no terms, where nothing is ever sent.)      *)
Answer == main = "end" => answer = UNION {post[t] : t \in Terms}
NothingLeft == main = "end" => /\ \A t \in Terms : w1[t].pc = "done"
                               /\ \A b \in B : w2[b].pc = "done"
                               /\ ~open1 /\ ~open2
SlotsKept == used <= Slots
Ends == <>(main = "end")
=============================================================================
