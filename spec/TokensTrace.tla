---------------------------- MODULE TokensTrace ----------------------------
(* Recorded runs of the tokenizer. Texts and tokens are sequences of code    *)
(* points (-1: a byte that is no part of one). The classes of characters are *)
(* the Unicode tables', given by the first event as ranges.                  *)
EXTENDS TokensCore, Integers, TLC, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
E == Trace[l]
Say(cat, what, want, got) ==
  CSVWrite("%1$s", <<ToJson([l |-> l, tid |-> E.tid, gen |-> 0, k |-> E.k, cat |-> cat, what |-> what,
                             want |-> want, got |-> got])>>, IOEnv.MISOUT)
Must(c, cat, what, want, got) == IF c THEN TRUE ELSE Say(cat, what, want, got)
(* One text: its characters, the class of each, the tokens made of it.       *)
Text == /\ E.k = "text"
        /\ LET n == Len(E.cp)
               want == LET r == TokensOf([i \in 1..n |-> E.cls[i] \in WordClasses]) IN
                       [j \in 1..Len(r) |-> SubSeq(E.cp, r[j][1], r[j][2])]
           IN Must(want = E.toks, "tokens", E.cp, want, E.toks)
(* Every code point between two letters: those that do not cut, as ranges,   *)
(* against the letters and numbers of the tables and the apostrophe.         *)
Sweep == /\ E.k = "sweep"
         /\ Must(E.strange = <<>>, "sweep", "code points that neither join nor cut", <<>>, E.strange)
         /\ Must(E.joins = E.words, "sweep", "word characters",
                 [notjoined |-> ToSet(E.words) \ ToSet(E.joins)], [joined |-> ToSet(E.joins) \ ToSet(E.words)])
Begin == E.k = "begin"
Bad == E.k = "bad" /\ Say(E.cat, E.what, "never", "happened")
Init == l = 1
Next == l <= Len(Trace) /\ (Text \/ Sweep \/ Begin \/ Bad) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
