------------------------------- MODULE Tokens -------------------------------
(* Cutting a text into tokens: a scanner that reads one character at a time, *)
(* and what it must come to (TokensOf): the maximal runs of word characters. *)
(* TLC runs the scanner over every text of up to MaxLen characters of        *)
(* Classes; the texts it has read (TEXTOUT) are replayed on the real code.   *)
EXTENDS TokensCore, TLC, Json, CSV, IOUtils
CONSTANTS Classes, MaxLen, BUG
VARIABLES text, open, done
vars == <<text, open, done>>
Init == text = <<>> /\ open = 0 /\ done = <<>>
(* open is where the token being read began; 0: none.                        *)
Read(c) ==
  /\ Len(text) < MaxLen
  /\ text' = Append(text, c)
  /\ LET word == c \in WordClasses \/ (BUG = "mark_joins" /\ c = "M")
         i == Len(text) + 1 IN
     IF word /\ ~(BUG = "quote_splits" /\ c = "Q")
     THEN open' = (IF open = 0 THEN i ELSE open) /\ done' = done
     ELSE /\ open' = 0
          /\ done' = IF open = 0 THEN IF BUG = "empty_token" /\ i = 1 THEN Append(done, <<1, 0>>) ELSE done
                     ELSE Append(done, <<open, i - 1>>)
Next == \E c \in Classes : Read(c)
Spec == Init /\ [][Next]_vars
Result == IF open = 0 \/ BUG = "drop_last" THEN done ELSE Append(done, <<open, Len(text)>>)
Right == Result = TokensOf([i \in 1..Len(text) |-> text[i] \in WordClasses])
(* No word character is lost and no other one kept.                          *)
Covers == UNION {r[1]..r[2] : r \in ToSet(Result)} = {i \in 1..Len(text) : text[i] \in WordClasses}
Emit == IF IOEnv.TEXTOUT = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson(text)>>, IOEnv.TEXTOUT)
=============================================================================
