------------------------------ MODULE SaveFile ------------------------------
(* The safe save of a file (file.SecureSaveFile) at the grain of its file    *)
(* operations: several savers of one file at once, any operation may fail    *)
(* (a write having written a part), the process may die at any step, and     *)
(* the one that starts then may save again. Contents are sequences of two    *)
(* blocks; a content is whole if both blocks are a saver's own.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Savers, BUG, MaxFaults, MaxCrashes
VARIABLES dir,    \* name -> content
          pc, ret, \* of each saver
          had,    \* every content the file had since the beginning
          faults, crashes
vars == <<dir, pc, ret, had, faults, crashes>>

Target == "file"
Temp(s) == CASE BUG = "shared_temp" -> "temp"
             [] BUG = "in_place" -> Target
             [] OTHER -> s
Whole(c) == Len(c) = 2 /\ c[1] = c[2]
Put(n, c) == [x \in DOMAIN dir \cup {n} |-> IF x = n THEN c ELSE dir[x]]
Drop(n) == [x \in DOMAIN dir \ {n} |-> dir[x]]
None == <<"none">>
Now(d) == IF Target \in DOMAIN d THEN d[Target] ELSE None
Saw(d) == had' = [s \in Savers |-> IF pc[s] = "idle" THEN had[s] ELSE had[s] \cup {Now(d)}]

Init == /\ dir \in {[x \in {} |-> <<>>], [x \in {Target} |-> <<"old", "old">>]}
        /\ pc = [s \in Savers |-> "idle"] /\ ret = [s \in Savers |-> "none"]
        /\ had = [s \in Savers |-> {Now(dir)}] /\ faults = 0 /\ crashes = 0

To(s, p) == pc' = [pc EXCEPT ![s] = p]
Same == UNCHANGED <<ret, faults, crashes>>
Start(s) == /\ pc[s] = "idle" /\ ret[s] = "none"
            /\ pc' = [pc EXCEPT ![s] = "open"]
            /\ had' = [had EXCEPT ![s] = {Now(dir)}]
            /\ UNCHANGED <<dir, ret, faults, crashes>>
Open(s) == /\ pc[s] = "open"
           /\ dir' = Put(Temp(s), <<>>)
           /\ To(s, "write1") /\ Same /\ Saw(dir')
(* An open file is found by its name here; renaming it away fails the write. *)
Write(s, n) == /\ pc[s] = "write" \o ToString(n)
               /\ dir' = IF Temp(s) \in DOMAIN dir
                         THEN Put(Temp(s), [i \in 1..(IF Len(dir[Temp(s)]) > n THEN Len(dir[Temp(s)]) ELSE n) |->
                                  IF i = n THEN s ELSE IF i <= Len(dir[Temp(s)]) THEN dir[Temp(s)][i] ELSE "hole"])
                         ELSE dir
               /\ To(s, IF n = 1 THEN "write2" ELSE IF BUG = "in_place" THEN "ok" ELSE "rename")
               /\ Same /\ Saw(dir')
Rename(s) ==
  /\ pc[s] = "rename" /\ Temp(s) \in DOMAIN dir
  /\ IF BUG \in {"remove_first", "backup"} /\ Target \in DOMAIN dir
     THEN /\ dir' = (IF BUG = "remove_first" THEN Drop(Target)
                     ELSE [x \in (DOMAIN dir \cup {"backup"}) \ {Target} |->
                             IF x = "backup" THEN dir[Target] ELSE dir[x]])
          /\ To(s, "rename")
     ELSE /\ dir' = [x \in (DOMAIN dir \cup {Target}) \ {Temp(s)} |->
                       IF x = Target THEN dir[Temp(s)] ELSE dir[x]]
          /\ To(s, "ok")
  /\ Same /\ Saw(dir')
(* Renaming a file that another saver took fails.                            *)
RenameFails(s) == /\ pc[s] = "rename" /\ Temp(s) \notin DOMAIN dir
                  /\ To(s, "clean") /\ UNCHANGED dir /\ Same /\ Saw(dir)
Fault(s) ==
  /\ faults < MaxFaults /\ pc[s] \in {"open", "write1", "write2", "rename"}
  /\ faults' = faults + 1
  /\ To(s, IF BUG = "swallow" THEN "ok" ELSE IF BUG = "in_place" THEN "error" ELSE "clean")
  /\ UNCHANGED <<dir, ret, crashes>> /\ Saw(dir)
Clean(s) == /\ pc[s] = "clean"
            /\ \/ dir' = IF Temp(s) \in DOMAIN dir THEN Drop(Temp(s)) ELSE dir
               \/ faults < MaxFaults /\ dir' = dir
            /\ To(s, "error") /\ Same /\ Saw(dir')
Return(s) == /\ pc[s] \in {"ok", "error"}
             /\ ret' = [ret EXCEPT ![s] = pc[s]]
             /\ To(s, "idle") /\ UNCHANGED <<dir, had, faults, crashes>>
Crash == /\ crashes < MaxCrashes /\ crashes' = crashes + 1
         /\ pc' = [s \in Savers |-> "idle"]
         (* whoever was under way starts again, in the new process *)
         /\ ret' = [s \in Savers |-> ret[s]]
         /\ UNCHANGED <<dir, had, faults>>
Next == \/ \E s \in Savers : \/ Start(s) \/ Open(s) \/ Write(s, 1) \/ Write(s, 2) \/ Rename(s) \/ RenameFails(s)
                             \/ Fault(s) \/ Clean(s) \/ Return(s)
        \/ Crash
Spec == Init /\ [][Next]_vars

(* At every step a reader finds a whole content, and never nothing once      *)
(* there was something.                                                      *)
AlwaysWhole == Now(dir) = None \/ Whole(Now(dir))
NeverLost == [][Now(dir) # None => Now(dir') # None]_vars
(* A success has put its content there; an error has left the file alone.    *)
Truthful == \A s \in Savers : /\ ret[s] = "ok" => <<s, s>> \in had[s]
                              /\ (ret[s] = "error" /\ crashes = 0) => <<s, s>> \notin had[s]
(* When all is over the file has the content of one that succeeded, or of    *)
(* one that the crash interrupted, or its first if none did.                 *)
Settled == ((\A s \in Savers : pc[s] = "idle" /\ ret[s] # "none") /\ \E s \in Savers : ret[s] = "ok")
              => Now(dir) \in {<<s, s>> : s \in Savers}
=============================================================================
