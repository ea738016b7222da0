------------------------------ MODULE Flatten ------------------------------
(* Flattening as a walk over the object, one entry at a time in any order    *)
(* (Go's maps have none): checked to end with exactly the leaves under their *)
(* dotted paths, for every object up to a depth.                             *)
EXTENDS FlattenCore
CONSTANTS Keys, Depth, BUG
VARIABLES root, todo, out
vars == <<root, todo, out>>
Leaf == [t |-> "leaf", v |-> 0]
RECURSIVE Objs(_)
Vals(n) == {Leaf} \cup (IF n = 0 THEN {} ELSE Objs(n))
Objs(n) == UNION {LET ks == CHOOSE q \in [1..Cardinality(K) -> K] : \A i, j \in DOMAIN q : q[i] = q[j] => i = j
                  IN {[t |-> "obj", ks |-> ks, vs |-> f] : f \in [1..Cardinality(K) -> Vals(n - 1)]}
                  : K \in SUBSET Keys}
(* Number the leaves so that they can be told apart.                         *)
Ids(o) == Leaves(o, <<>>)
(* todo: positions still to be visited, as paths; at(p): what is there.      *)
RECURSIVE At(_, _)
At(o, p) == IF p = <<>> THEN o
            ELSE LET i == CHOOSE j \in 1..Len(o.ks) : o.ks[j] = Head(p) IN At(o.vs[i], Tail(p))
Below(p) == {Append(p, At(root, p).ks[i]) : i \in 1..Len(At(root, p).ks)}
Name(p) == CASE BUG = "last_key" -> p[Len(p)]
             [] BUG = "skip_empty" -> LET q == SelectSeq(p, LAMBDA k : k # "") IN
                                      IF q = <<>> THEN "" ELSE Dotted(q)
             [] BUG = "two_levels" -> Dotted(SubSeq(p, IF Len(p) > 2 THEN Len(p) - 1 ELSE 1, Len(p)))
             [] OTHER -> Dotted(p)
Init == root \in Objs(Depth) /\ todo = Below(<<>>) /\ out = {}
Visit(p) ==
  /\ p \in todo
  /\ IF At(root, p).t = "leaf"
     THEN todo' = todo \ {p} /\ out' = out \cup {<<Name(p), p>>}
     ELSE /\ todo' = (todo \ {p}) \cup Below(p)
          /\ out' = IF BUG = "keep_objects" THEN out \cup {<<Name(p), p>>} ELSE out
  /\ UNCHANGED root
Next == \E p \in todo : Visit(p)
Spec == Init /\ [][Next]_vars
Right == todo = {} =>
  /\ {x[2] : x \in out} = {Ids(root)[i].path : i \in 1..Len(Ids(root))}
  /\ \A x \in out : x[1] = Dotted(x[2])
ASSUME /\ Plain(FALSE, <<1, 2>>, 3) = "12000" /\ Plain(TRUE, <<1, 2>>, 0 - 1) = "-1.2"
       /\ Plain(FALSE, <<5>>, 0 - 3) = "0.005" /\ Plain(TRUE, <<>>, 0) = "0" /\ Plain(FALSE, <<1, 2>>, 0 - 2) = "0.12"
=============================================================================
