---------------------------- MODULE FlattenCore ----------------------------
(* Nested objects and their dotted paths; numbers in plain decimal notation. *)
(* A value is [t |-> "leaf", v] or [t |-> "obj", ks, vs]: keys and values.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Leaves(_, _), Concat(_), Zeros(_)
(* The leaves of an object whose path so far is p: a sequence of <<path, leaf>>. *)
Leaves(o, p) ==
  LET One(i) == IF o.vs[i].t = "leaf" THEN <<[path |-> Append(p, o.ks[i]), v |-> o.vs[i].v]>>
                ELSE Leaves(o.vs[i], Append(p, o.ks[i]))
      RECURSIVE Go(_)
      Go(i) == IF i > Len(o.ks) THEN <<>> ELSE One(i) \o Go(i + 1)
  IN Go(1)
Dotted(p) == LET RECURSIVE Go(_)
                 Go(i) == IF i = Len(p) THEN p[i] ELSE (p[i] \o ".") \o Go(i + 1)
             IN Go(1)
Named(o) == LET q == Leaves(o, <<>>) IN {<<Dotted(q[i].path), q[i].v>> : i \in 1..Len(q)}
Unambiguous(o) == LET q == Leaves(o, <<>>) IN Cardinality({x[1] : x \in Named(o)}) = Len(q)

Concat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Concat(Tail(q))
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
(* The number ds * 10^e: ds a sequence of digits without zeros at its ends.  *)
Plain(neg, ds, e) ==
  LET n == Len(ds)
      s == [i \in 1..n |-> ToString(ds[i])]
      body == IF n = 0 THEN "0"
              ELSE IF e >= 0 THEN Concat(s) \o Zeros(e)
              ELSE IF n > 0 - e THEN (Concat(SubSeq(s, 1, n + e)) \o ".") \o Concat(SubSeq(s, n + e + 1, n))
              ELSE ("0." \o Zeros((0 - e) - n)) \o Concat(s)
  IN IF neg /\ n > 0 THEN "-" \o body ELSE body
=============================================================================
