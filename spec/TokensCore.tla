----------------------------- MODULE TokensCore -----------------------------
(* The tokens of a text: the maximal runs of word characters, in order.      *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets
(* Letters, numbers, apostrophes; separators: spaces, punctuation, symbols,  *)
(* combining marks, control characters, bytes that are not UTF-8.            *)
WordClasses == {"L", "N", "Q"}
(* w[i]: whether character i is one; the tokens as <<first, last>>.          *)
TokensOf(w) ==
  LET n == Len(w)
      starts == SetToSortSeq({i \in 1..n : w[i] /\ (i = 1 \/ ~w[i-1])}, <)
      ends   == SetToSortSeq({i \in 1..n : w[i] /\ (i = n \/ ~w[i+1])}, <)
  IN [j \in 1..Len(starts) |-> <<starts[j], ends[j]>>]
=============================================================================
