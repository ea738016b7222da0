----------------------------- MODULE NormalCore -----------------------------
(* The filters, given what they do to one word as functions lower, stem and  *)
(* fold and a set of stop words.                                             *)
EXTENDS Naturals, Sequences, FiniteSets
Each(f, q) == [i \in 1..Len(q) |-> f[q[i]]]
Drop(stop, q) == SelectSeq(q, LAMBDA w : w \notin stop)
Pipeline(lower, stop, stem, fold, q) == Each(fold, Each(stem, Drop(stop, Each(lower, q))))
CountOf(q) == [w \in {q[i] : i \in 1..Len(q)} |-> Cardinality({i \in 1..Len(q) : q[i] = w})]
=============================================================================
