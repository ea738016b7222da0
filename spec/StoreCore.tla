----------------------------- MODULE StoreCore -----------------------------
(* The sequential meaning of a store (package storage), as pure operators   *)
(* on a state record, shared by every other specification here:             *)
(*   index[f][t]  the documents listed under term t of field f              *)
(*   size[f]      how many documents have field f                           *)
(*   len[f]       the sum of their lengths                                  *)
(*   df[f][t]     how many documents have term t in field f                 *)
(*   docs[d]      the fields of document d: f -> [len, tf: term -> count]   *)
EXTENDS Naturals, FiniteSets, Sequences, FiniteSetsExt

EmptyFn == [x \in {} |-> x]

Blank(Docs, Fields, Terms) ==
  [index |-> [f \in Fields |-> [t \in Terms |-> {}]],
   size  |-> [f \in Fields |-> 0],
   len   |-> [f \in Fields |-> 0],
   df    |-> [f \in Fields |-> [t \in Terms |-> 0]],
   docs  |-> [d \in Docs |-> EmptyFn]]

NoField == [len |-> 0, tf |-> EmptyFn]
Has(s, d, f) == f \in DOMAIN s.docs[d]
FieldOf(s, d, f) == IF Has(s, d, f) THEN s.docs[d][f] ELSE NoField

SumOver(S, g(_)) == FoldSet(LAMBDA x, n : g(x) + n, 0, S)

With(fn, k, v) == [x \in DOMAIN fn \cup {k} |-> IF x = k THEN v ELSE fn[x]]

(* Saving field f of document d: v replaces what the document had.           *)
Save(s, d, f, v) ==
  LET old  == FieldOf(s, d, f)
      new  == DOMAIN v.tf
      gone == DOMAIN old.tf \ new
      add  == new \ DOMAIN old.tf
  IN [index |-> [s.index EXCEPT ![f] =
                   [t \in DOMAIN s.index[f] |->
                      IF t \in new THEN s.index[f][t] \cup {d}
                      ELSE IF t \in gone THEN s.index[f][t] \ {d}
                      ELSE s.index[f][t]]],
      size  |-> [s.size EXCEPT ![f] = @ + (IF Has(s, d, f) THEN 0 ELSE 1)],
      len   |-> [s.len EXCEPT ![f] = (@ + v.len) - old.len],
      df    |-> [s.df EXCEPT ![f] =
                   [t \in DOMAIN s.df[f] |->
                      IF t \in add THEN s.df[f][t] + 1
                      ELSE IF t \in gone THEN s.df[f][t] - 1
                      ELSE s.df[f][t]]],
      docs  |-> [s.docs EXCEPT ![d] = With(@, f, v)]]

RECURSIVE SaveAll(_, _, _)
SaveAll(s, d, fs) ==
  IF fs = <<>> THEN s
  ELSE SaveAll(Save(s, d, Head(fs).f, [len |-> Head(fs).len, tf |-> Head(fs).tf]),
               d, Tail(fs))

(* Saving a field of each of many documents: v[d] = [f, len, tf]. The same as  *)
(* one Save after the other, in any order, as Store checks.                  *)
SaveEach(s, v) ==
  LET D == DOMAIN v
      Of(f) == {d \in D : v[d].f = f}
      Now(f, t) == {d \in Of(f) : t \in DOMAIN v[d].tf}
      Was(f, t) == {d \in Of(f) : t \in DOMAIN FieldOf(s, d, f).tf}
  IN [index |-> [f \in DOMAIN s.index |-> [t \in DOMAIN s.index[f] |->
                   (s.index[f][t] \ (Was(f, t) \ Now(f, t))) \cup Now(f, t)]],
      size  |-> [f \in DOMAIN s.size |-> s.size[f] + Cardinality({d \in Of(f) : ~Has(s, d, f)})],
      len   |-> [f \in DOMAIN s.len |-> (s.len[f] + SumOver(Of(f), LAMBDA d : v[d].len))
                                        - SumOver(Of(f), LAMBDA d : FieldOf(s, d, f).len)],
      df    |-> [f \in DOMAIN s.df |-> [t \in DOMAIN s.df[f] |->
                   (s.df[f][t] + Cardinality(Now(f, t) \ Was(f, t))) - Cardinality(Was(f, t) \ Now(f, t))]],
      docs  |-> [d \in DOMAIN s.docs |->
                   IF d \in D THEN With(s.docs[d], v[d].f, [len |-> v[d].len, tf |-> v[d].tf]) ELSE s.docs[d]]]

(* An index-only update.                                                     *)
Post(s, d, f, ts) ==
  [s EXCEPT !.index[f] =
     [t \in DOMAIN s.index[f] |->
        IF t \in ts THEN s.index[f][t] \cup {d} ELSE s.index[f][t]]]

(* What the documents imply, from first principles.                          *)
Holders(s, f) == {d \in DOMAIN s.docs : Has(s, d, f)}
Containing(s, f, t) == {d \in Holders(s, f) : t \in DOMAIN s.docs[d][f].tf}
DerivedSize(s, f) == Cardinality(Holders(s, f))
DerivedLen(s, f) == SumOver(Holders(s, f), LAMBDA d : s.docs[d][f].len)
DerivedDf(s, f, t) == Cardinality(Containing(s, f, t))
StatsDerived(s) ==
  \A f \in DOMAIN s.size :
    /\ s.size[f] = DerivedSize(s, f)
    /\ s.len[f] = DerivedLen(s, f)
    /\ \A t \in DOMAIN s.df[f] : s.df[f][t] = DerivedDf(s, f, t)
PostingsDerived(s) ==
  \A f \in DOMAIN s.index : \A t \in DOMAIN s.index[f] :
    s.index[f][t] = Containing(s, f, t)

(* What a search for the terms ts (a sequence) in field f matches. On a      *)
(* consistent store this is the set of documents containing a term; a store  *)
(* reopened after a crash may know a document or its posting only.           *)
Matches(s, f, ts) ==
  LET T == {ts[i] : i \in 1..Len(ts)} IN
  {d \in Holders(s, f) :
     /\ \E t \in T : t \in DOMAIN s.index[f] /\ d \in s.index[f][t]
     /\ \E t \in T : t \in DOMAIN s.docs[d][f].tf}
=============================================================================
