------------------------------- MODULE FileMC -------------------------------
(***************************************************************************)
(* The file store at the level of file system calls: records are published *)
(* by linking or renaming a complete temporary file; changes of a record   *)
(* hold an exclusive lock on the file they replace.  Several processes do  *)
(* one operation each on one task, each may be killed before any of its    *)
(* calls.  Lin watches: every answer fits an instant of effect.            *)
(***************************************************************************)
EXTENDS Lin, Sequences, Json, IOUtils

Procs == 1..atoi(IOEnv.PROCS)
Kills == atoi(IOEnv.KILLS)
Torn == 99
Kinds == {"add", "update", "delete", "lookup"}

VARIABLES kind,     \* p -> operation
          start,    \* version of the task at the beginning
          pc, fd, res,
          dir,      \* inode with the name of the task, 0: none
          data,     \* inode -> version, -1 unreadable, Torn while it is written
          ex, sh,   \* locks: inode -> process, set of processes
          cs, kills, h
vars == <<kind, start, pc, fd, res, dir, data, ex, sh, cs, kills, h>>
View == <<kind, start, pc, fd, res, dir, data, ex, sh, cs, kills>>

Tmp(p) == 10 + p           \* the temporary file of p
Ops == [p \in Procs |-> [op |-> kind[p], id |-> "a", v |-> p, late |-> {}]]
Inodes == {1} \cup {Tmp(p) : p \in Procs}
First == [add |-> "create", update |-> "create", delete |-> "open", lookup |-> "ropen"]

Init == /\ kind \in [Procs -> Kinds]
        /\ start \in {0, 100, -1}
        /\ dir = (IF start = 0 THEN 0 ELSE 1)
        /\ data = [n \in Inodes |-> IF n = 1 THEN start ELSE 0]
        /\ pc = [p \in Procs |-> "idle"] /\ fd = [p \in Procs |-> 0] /\ res = [p \in Procs |-> ""]
        /\ ex = [n \in Inodes |-> 0] /\ sh = [n \in Inodes |-> {}]
        /\ cs = Start(start, Procs)
        /\ kills = 0
        /\ h = <<>>

Free(n, p) == ex[n] \in {0, p} /\ sh[n] \subseteq {p}
Go(p, a, next) == pc' = [pc EXCEPT ![p] = next] /\ h' = Append(h, <<p, a>>)

Begin(p) == /\ pc[p] = "idle" /\ Go(p, "call", First[kind[p]])
            /\ cs' = Call(cs, p)
            /\ UNCHANGED <<kind, start, fd, res, dir, data, ex, sh, kills>>
Create(p) == /\ pc[p] = "create" /\ Go(p, "create", "write")
             /\ data' = [data EXCEPT ![Tmp(p)] = Torn]
             /\ UNCHANGED <<kind, start, fd, res, dir, ex, sh, cs, kills>>
Write(p) == /\ pc[p] = "write" /\ Go(p, "write", IF kind[p] = "add" THEN "link" ELSE "open")
            /\ data' = [data EXCEPT ![Tmp(p)] = p]
            /\ UNCHANGED <<kind, start, fd, res, dir, ex, sh, cs, kills>>
Link(p) == /\ pc[p] = "link" /\ Go(p, "link", "unlinktmp")
           /\ IF dir = 0 THEN dir' = Tmp(p) /\ res' = [res EXCEPT ![p] = "ok"]
              ELSE dir' = dir /\ res' = [res EXCEPT ![p] = "conflict"]
           /\ UNCHANGED <<kind, start, fd, data, ex, sh, cs, kills>>
UnlinkTmp(p) == /\ pc[p] = "unlinktmp" /\ Go(p, "unlinktmp", "ret")
                /\ UNCHANGED <<kind, start, fd, res, dir, data, ex, sh, cs, kills>>
After(p) == IF kind[p] = "update" THEN "unlinktmp" ELSE "ret"
Open(p) == /\ pc[p] = "open"
           /\ IF dir = 0 THEN Go(p, "open", After(p)) /\ fd' = fd /\ res' = [res EXCEPT ![p] = IF kind[p] = "lookup" THEN "none" ELSE "missing"]
              ELSE Go(p, "open", "flock") /\ fd' = [fd EXCEPT ![p] = dir] /\ res' = res
           /\ UNCHANGED <<kind, start, dir, data, ex, sh, cs, kills>>
Flock(p) == /\ pc[p] = "flock" /\ Free(fd[p], p) /\ Go(p, "flock", "stat")
            /\ ex' = [ex EXCEPT ![fd[p]] = p]
            /\ UNCHANGED <<kind, start, fd, res, dir, data, sh, cs, kills>>
Unlocked(p) == ex' = [n \in Inodes |-> IF ex[n] = p THEN 0 ELSE ex[n]]
Stat(p) == /\ pc[p] = "stat"
           /\ IF dir = 0 THEN Go(p, "stat", After(p)) /\ Unlocked(p) /\ res' = [res EXCEPT ![p] = IF kind[p] = "lookup" THEN "none" ELSE "missing"]
              ELSE IF dir # fd[p] THEN Go(p, "stat", "open") /\ Unlocked(p) /\ res' = res
              ELSE Go(p, "stat", IF kind[p] = "update" THEN "rename" ELSE IF kind[p] = "delete" THEN "unlink" ELSE "drop") /\ ex' = ex /\ res' = res
           /\ UNCHANGED <<kind, start, fd, dir, data, sh, cs, kills>>
Rename(p) == /\ pc[p] = "rename" /\ Go(p, "rename", "unlinktmp")
             /\ dir' = Tmp(p) /\ Unlocked(p) /\ res' = [res EXCEPT ![p] = "ok"]
             /\ UNCHANGED <<kind, start, fd, data, sh, cs, kills>>
Unlink(p) == /\ pc[p] = "unlink" /\ Go(p, "unlink", "ret")
             /\ dir' = 0 /\ Unlocked(p) /\ res' = [res EXCEPT ![p] = "ok"]
             /\ UNCHANGED <<kind, start, fd, data, sh, cs, kills>>
ROpen(p) == /\ pc[p] = "ropen"
            /\ IF dir = 0 THEN Go(p, "open", "ret") /\ fd' = fd /\ res' = [res EXCEPT ![p] = "none"]
               ELSE Go(p, "open", "rflock") /\ fd' = [fd EXCEPT ![p] = dir] /\ res' = res
            /\ UNCHANGED <<kind, start, dir, data, ex, sh, cs, kills>>
RFlock(p) == /\ pc[p] = "rflock" /\ ex[fd[p]] = 0 /\ Go(p, "flock", "read")
             /\ sh' = [sh EXCEPT ![fd[p]] = @ \cup {p}]
             /\ UNCHANGED <<kind, start, fd, res, dir, data, ex, cs, kills>>
\* an unreadable record is removed, if it still is the one that was read
Read(p) == /\ pc[p] = "read"
           /\ sh' = [sh EXCEPT ![fd[p]] = @ \ {p}]
           /\ IF data[fd[p]] \in {-1, Torn} THEN Go(p, "read", "open") /\ res' = res
              ELSE Go(p, "read", "ret") /\ res' = [res EXCEPT ![p] = Name(data[fd[p]])]
           /\ UNCHANGED <<kind, start, fd, dir, data, ex, cs, kills>>
Drop(p) == /\ pc[p] = "drop" /\ Go(p, "unlink", "ret")
           /\ dir' = (IF data[dir] = -1 THEN 0 ELSE dir)
           /\ Unlocked(p) /\ res' = [res EXCEPT ![p] = "none"]
           /\ UNCHANGED <<kind, start, fd, data, sh, cs, kills>>
Ret(p) == /\ pc[p] = "ret" /\ Go(p, "ret", "done")
          /\ cs' = Return(cs, p, Ops, res[p])
          /\ UNCHANGED <<kind, start, fd, res, dir, data, ex, sh, kills>>
Kill(p) == /\ pc[p] \notin {"idle", "done"} /\ kills < Kills
           /\ Go(p, "kill", "done") /\ kills' = kills + 1
           /\ cs' = Death(cs, p, Ops)
           /\ Unlocked(p) /\ sh' = [n \in Inodes |-> sh[n] \ {p}]
           /\ UNCHANGED <<kind, start, fd, res, dir, data>>
Next == \E p \in Procs :
  \/ Begin(p) \/ Create(p) \/ Write(p) \/ Link(p) \/ UnlinkTmp(p) \/ Open(p) \/ Flock(p) \/ Stat(p) \/ Rename(p)
  \/ Unlink(p) \/ ROpen(p) \/ RFlock(p) \/ Read(p) \/ Drop(p) \/ Ret(p) \/ Kill(p)

Emit == PrintT("SCRIPT " \o ToJson([k |-> kind, x |-> start, h |-> h']))

(* what the property says *)
Fits == cs # {}
\* the name never stands for a record that is not complete
Complete == dir # 0 => data[dir] # Torn
\* nobody waits forever: as long as somebody is not done, somebody can go on
Waits(p) == (pc[p] = "flock" /\ ~Free(fd[p], p)) \/ (pc[p] = "rflock" /\ ex[fd[p]] # 0)
Busy == {p \in Procs : pc[p] \notin {"idle", "done"}}
Live == Busy # {} => \E p \in Busy : ~Waits(p)
\* what is on disk is what the history says
OnDisk == (\A p \in Procs : pc[p] \in {"idle", "done"}) =>
            \E c \in cs : c.x = IF dir = 0 THEN 0 ELSE data[dir]
=============================================================================
