------------------------------- MODULE Serial -------------------------------
(* Serialised values, as bytes somewhere in memory: serialising gives bytes  *)
(* of their own, reading them back gives the value as often as one likes,    *)
(* and a value read back is independent of the bytes afterwards.             *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Values, MaxOps, BUG
VARIABLES mem,    \* cells of memory: the value whose bytes they hold, or 0
          buf,    \* handle -> the cell its bytes are in
          want,   \* handle -> the value that was serialised
          got,    \* values read back: [is, cell]: cell # 0 if it shares the bytes
          must,   \* what each of got must be
          n
vars == <<mem, buf, want, got, must, n>>
Init == mem = <<>> /\ buf = <<>> /\ want = <<>> /\ got = <<>> /\ must = <<>> /\ n = 0
Serialise(v) ==
  /\ IF BUG = "pooled" /\ mem # <<>>
     THEN mem' = [mem EXCEPT ![1] = v] /\ buf' = Append(buf, 1)
     ELSE mem' = Append(mem, v) /\ buf' = Append(buf, Len(mem) + 1)
  /\ want' = Append(want, v) /\ UNCHANGED <<got, must>>
Deserialise(h) ==
  /\ got' = Append(got, [is |-> mem[buf[h]], cell |-> IF BUG = "aliased" THEN buf[h] ELSE 0])
  /\ must' = Append(must, want[h])
  /\ mem' = IF BUG = "consumes" THEN [mem EXCEPT ![buf[h]] = 0] ELSE mem
  /\ UNCHANGED <<buf, want>>
(* The owner of the bytes uses them for something else; no one reads them    *)
(* any more.                                                                 *)
Scribble(h) ==
  /\ want[h] # 0 /\ mem[buf[h]] # 0
  /\ mem' = [mem EXCEPT ![buf[h]] = 0] /\ want' = [want EXCEPT ![h] = 0]
  /\ UNCHANGED <<buf, got, must>>
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E v \in Values : Serialise(v)
           \/ \E h \in 1..Len(buf) : want[h] # 0 /\ Deserialise(h)
           \/ \E h \in 1..Len(buf) : Scribble(h)
Spec == Init /\ [][Next]_vars
Value(g) == IF g.cell # 0 THEN mem[g.cell] ELSE g.is
Right == \A i \in 1..Len(got) : Value(got[i]) = must[i]
=============================================================================
