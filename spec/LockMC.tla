------------------------------- MODULE LockMC -------------------------------
(***************************************************************************)
(* The lock file between file system calls: taking it (open, lock without  *)
(* waiting, see whether the name still means this file), leaving, removing *)
(* the file at a shutdown, death at any point.  Processes do OPS           *)
(* operations each.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Procs == 1..atoi(IOEnv.PROCS)
OpsEach == atoi(IOEnv.OPS)
Kills == atoi(IOEnv.KILLS)
Kinds == {"try", "raise", "shut"}

VARIABLES kind,     \* p -> its operations
          pc, k,    \* where it is, number of the operation
          fd,       \* the file it has open
          dir,      \* file with the name, 0: none
          new,      \* next file
          held,     \* file -> process
          over,     \* p -> others that were active during its operation
          dead, h
vars == <<kind, pc, k, fd, dir, new, held, over, dead, h>>
View == <<kind, pc, k, fd, dir, new, held, over, dead>>

Files == 1..(Cardinality(Procs) * OpsEach)
Init == /\ kind \in [Procs -> [1..OpsEach -> Kinds]]
        /\ pc = [p \in Procs |-> "idle"] /\ k = [p \in Procs |-> 1] /\ fd = [p \in Procs |-> 0]
        /\ dir = 0 /\ new = 1 /\ held = [f \in Files |-> 0]
        /\ over = [p \in Procs |-> {}] /\ dead = {} /\ h = <<>>

Go(p, a, next) == pc' = [pc EXCEPT ![p] = next] /\ h' = Append(h, <<p, a>>)
Active == {p \in Procs : pc[p] # "idle"}

Call(p) == /\ pc[p] = "idle" /\ p \notin dead /\ k[p] <= OpsEach
           /\ Go(p, "call", IF kind[p][k[p]] = "shut" THEN "open" ELSE "create")
           /\ over' = [q \in Procs |-> IF q = p THEN Active ELSE IF q \in Active THEN over[q] \cup {p} ELSE over[q]]
           /\ UNCHANGED <<kind, k, fd, dir, new, held, dead>>
Create(p) == /\ pc[p] = "create" /\ Go(p, "create", "flock")
             /\ IF dir = 0 THEN dir' = new /\ new' = new + 1 /\ fd' = [fd EXCEPT ![p] = new]
                ELSE fd' = [fd EXCEPT ![p] = dir] /\ UNCHANGED <<dir, new>>
             /\ UNCHANGED <<kind, k, held, over, dead>>
Open(p) == /\ pc[p] = "open" /\ Go(p, "open", IF dir = 0 THEN "ret" ELSE "flock")
           /\ fd' = [fd EXCEPT ![p] = dir]
           /\ UNCHANGED <<kind, k, dir, new, held, over, dead>>
Shut(p) == kind[p][k[p]] = "shut"
Flock(p) == /\ pc[p] = "flock"
            /\ IF held[fd[p]] = 0 THEN held' = [held EXCEPT ![fd[p]] = p] /\ Go(p, "flock", "stat")
               ELSE held' = held /\ Go(p, "flock", IF Shut(p) THEN "ret" ELSE "outside")
            /\ UNCHANGED <<kind, k, fd, dir, new, over, dead>>
Stat(p) == /\ pc[p] = "stat"
           /\ Go(p, "stat", IF dir = fd[p] THEN (IF Shut(p) THEN "remove" ELSE "inside") ELSE (IF Shut(p) THEN "unlock" ELSE "unlock0"))
           /\ UNCHANGED <<kind, k, fd, dir, new, held, over, dead>>
Remove(p) == /\ pc[p] = "remove" /\ Go(p, "os.remove", "unlock")
             /\ dir' = 0
             /\ UNCHANGED <<kind, k, fd, new, held, over, dead>>
Leave(p) == /\ pc[p] \in {"inside", "outside"} /\ Go(p, pc[p], IF pc[p] = "inside" THEN "unlock" ELSE "ret")
            /\ UNCHANGED <<kind, k, fd, dir, new, held, over, dead>>
Unlock(p) == /\ pc[p] \in {"unlock", "unlock0"} /\ Go(p, "unlock", IF pc[p] = "unlock" THEN "ret" ELSE "outside")
             /\ held' = [held EXCEPT ![fd[p]] = 0]
             /\ UNCHANGED <<kind, k, fd, dir, new, over, dead>>
Ret(p) == /\ pc[p] = "ret" /\ Go(p, "ret", "idle")
          /\ k' = [k EXCEPT ![p] = @ + 1] /\ over' = [over EXCEPT ![p] = {}]
          /\ UNCHANGED <<kind, fd, dir, new, held, dead>>
Kill(p) == /\ pc[p] # "idle" /\ Cardinality(dead) < Kills /\ Go(p, "kill", "idle")
           /\ dead' = dead \cup {p}
           /\ held' = [f \in Files |-> IF held[f] = p THEN 0 ELSE held[f]]
           /\ UNCHANGED <<kind, k, fd, dir, new, over>>
Next == \E p \in Procs : \/ Call(p) \/ Create(p) \/ Open(p) \/ Flock(p) \/ Stat(p) \/ Remove(p)
                         \/ Leave(p) \/ Unlock(p) \/ Ret(p) \/ Kill(p)

Emit == PrintT("SCRIPT " \o ToJson([k |-> kind, h |-> h']))

\* one at a time
One == Cardinality({p \in Procs : pc[p] = "inside"}) <= 1
\* who is turned away was not alone
Fair == \A p \in Procs : pc[p] = "outside" => over[p] # {}
\* nothing is held when nobody is active: the next one gets in
Freed == Active = {} => \A f \in Files : held[f] = 0
=============================================================================
