------------------------------- MODULE Store -------------------------------
(* All histories of saves and index-only updates over a small universe. The  *)
(* two backends keep their counters incrementally, in two different ways:    *)
(* memory takes the old field out and puts the new one in; disk applies      *)
(* deltas. Both are written here as the code has them, next to the abstract  *)
(* meaning (StoreCore!Save), and must agree with it and with what the        *)
(* documents imply. BUG names a slip to show that the invariants see it.     *)
EXTENDS StoreCore, TLC
CONSTANTS Docs, Fields, Terms, MaxTf, BUG
VARIABLES s, mem, dsk
vars == <<s, mem, dsk>>

TFs == UNION {[T -> 1..MaxTf] : T \in SUBSET Terms}
Sum(tf) == SumOver(DOMAIN tf, LAMBDA t : tf[t])
Values == {[len |-> Sum(tf), tf |-> tf] : tf \in TFs}

MemRemove(m, d, f, old) ==
  [m EXCEPT !.size[f] = @ - 1, !.len[f] = @ - old.len,
            !.df[f] = [t \in Terms |-> @[t] - (IF t \in DOMAIN old.tf THEN 1 ELSE 0)],
            !.index[f] = [t \in Terms |-> IF t \in DOMAIN old.tf THEN @[t] \ {d} ELSE @[t]]]
MemAdd(m, d, f, v) ==
  [m EXCEPT !.size[f] = @ + 1, !.len[f] = @ + v.len,
            !.df[f] = [t \in Terms |-> @[t] + (IF t \in DOMAIN v.tf THEN 1 ELSE 0)],
            !.index[f] = [t \in Terms |-> IF t \in DOMAIN v.tf THEN @[t] \cup {d} ELSE @[t]],
            !.docs[d] = With(@, f, v)]
MemSave(m, d, f, v) ==
  IF Has(m, d, f) /\ BUG # "mem_no_remove"
  THEN MemAdd(MemRemove(m, d, f, m.docs[d][f]), d, f, v)
  ELSE MemAdd(m, d, f, v)

DskSave(m, d, f, v) ==
  LET old == FieldOf(m, d, f) IN
  [m EXCEPT !.size[f] = @ + (IF Has(m, d, f) /\ @ # 0 /\ BUG # "dsk_size" THEN 0 ELSE 1),
            !.len[f] = ((IF @ < old.len THEN old.len ELSE @) + v.len) - old.len,
            !.index[f] = [t \in Terms |->
               IF t \in DOMAIN v.tf THEN @[t] \cup {d}
               ELSE IF t \in DOMAIN old.tf /\ BUG # "dsk_keep_posting" THEN @[t] \ {d} ELSE @[t]],
            !.df[f] = [t \in Terms |->
               IF t \in DOMAIN v.tf
               THEN (IF t \in DOMAIN old.tf /\ @[t] > 0 THEN @[t] ELSE @[t] + 1)
               ELSE (IF t \in DOMAIN old.tf /\ @[t] > 0 /\ BUG # "dsk_df" THEN @[t] - 1 ELSE @[t])],
            !.docs[d] = With(@, f, v)]

Init == LET b == Blank(Docs, Fields, Terms) IN s = b /\ mem = b /\ dsk = b
SaveField(d, f, v) == /\ s'   = Save(s, d, f, v)
                      /\ mem' = MemSave(mem, d, f, v)
                      /\ dsk' = DskSave(dsk, d, f, v)
Next == \E d \in Docs, f \in Fields, v \in Values : SaveField(d, f, v)
Spec == Init /\ [][Next]_vars

Derived == StatsDerived(s) /\ PostingsDerived(s)
MemAgrees == mem = s
DskAgrees == dsk = s
(* A save touches nothing but its own field of its own document.             *)
Frame == [][\A d \in Docs, f \in Fields, v \in Values :
              SaveField(d, f, v) =>
                /\ \A e \in Docs : \A g \in Fields : (e # d \/ g # f) =>
                     /\ Has(s', e, g) = Has(s, e, g)
                     /\ FieldOf(s', e, g) = FieldOf(s, e, g)
                /\ \A g \in Fields \ {f} : /\ s'.index[g] = s.index[g]
                                           /\ s'.df[g] = s.df[g]
                                           /\ s'.size[g] = s.size[g]]_vars
(* Saving many at once is saving one after the other.                        *)
EachAgrees ==
  \A d, e \in Docs, f, g \in Fields, v, w \in Values : d # e =>
    SaveEach(s, [x \in {d, e} |-> IF x = d THEN [f |-> f, len |-> v.len, tf |-> v.tf]
                                           ELSE [f |-> g, len |-> w.len, tf |-> w.tf]])
      = Save(Save(s, d, f, v), e, g, w)
(* Searching finds what contains a term.                                      *)
SearchExact == \A f \in Fields : \A t \in Terms :
                 Matches(s, f, <<t>>) = Containing(s, f, t)
=============================================================================
