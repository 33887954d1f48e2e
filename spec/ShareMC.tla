------------------------------- MODULE ShareMC ------------------------------
(***************************************************************************)
(* Schedulers of several processes share one store (one task, runs 1..RUNS *)
(* at the times 1..RUNS) under a lock.  A round takes the lock or gives    *)
(* up, reads what is due, hands it over, stores the next run time, leaves. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Procs == 1..atoi(IOEnv.PROCS)
Rounds == atoi(IOEnv.ROUNDS)
Kills == atoi(IOEnv.KILLS)
Runs == atoi(IOEnv.RUNS)

VARIABLES pc, k, now, t, holder, nrt, due, sub, kills, h
vars == <<pc, k, now, t, holder, nrt, due, sub, kills, h>>
View == <<pc, k, now, t, holder, nrt, due, sub, kills>>

Init == /\ pc = [p \in Procs |-> "idle"] /\ k = [p \in Procs |-> 0] /\ now = [p \in Procs |-> 0]
        /\ t = 1 /\ holder = 0 /\ nrt = 1 /\ due = [p \in Procs |-> {}]
        /\ sub = {}   \* <<run, p, round, lost>>: lost: the process died before it could store the next run time
        /\ kills = 0 /\ h = <<>>
Go(p, a, next) == pc' = [pc EXCEPT ![p] = next] /\ h' = Append(h, <<p, a>>)

Tick == /\ t < Runs /\ t' = t + 1 /\ h' = Append(h, <<0, "tick">>)
        /\ UNCHANGED <<pc, k, now, holder, nrt, due, sub, kills>>
Call(p) == /\ pc[p] = "idle" /\ k[p] < Rounds /\ Go(p, "call", "lock")
           /\ k' = [k EXCEPT ![p] = @ + 1] /\ now' = [now EXCEPT ![p] = t]
           /\ UNCHANGED <<t, holder, nrt, due, sub, kills>>
Lock(p) == /\ pc[p] = "lock"
           /\ IF holder = 0 THEN Go(p, "lock", "due") /\ holder' = p ELSE Go(p, "lock", "ret") /\ holder' = holder
           /\ UNCHANGED <<k, now, t, nrt, due, sub, kills>>
Due(p) == /\ pc[p] = "due"
          /\ due' = [due EXCEPT ![p] = nrt..now[p]]
          /\ Go(p, "due", IF nrt > now[p] THEN "next" ELSE "sub")
          /\ UNCHANGED <<k, now, t, holder, nrt, sub, kills>>
Sub(p) == /\ pc[p] = "sub" /\ Go(p, "sub", "put")
          /\ sub' = sub \cup {<<r, p, k[p], FALSE>> : r \in due[p]}
          /\ UNCHANGED <<k, now, t, holder, nrt, due, kills>>
Put(p) == /\ pc[p] = "put" /\ Go(p, "put", "next")
          /\ nrt' = now[p] + 1
          /\ UNCHANGED <<k, now, t, holder, due, sub, kills>>
NextRun(p) == /\ pc[p] = "next" /\ Go(p, "next", "unlock")
              /\ UNCHANGED <<k, now, t, holder, nrt, due, sub, kills>>
Unlock(p) == /\ pc[p] = "unlock" /\ Go(p, "unlock", "ret") /\ holder' = 0
             /\ UNCHANGED <<k, now, t, nrt, due, sub, kills>>
Ret(p) == /\ pc[p] = "ret" /\ Go(p, "ret", "idle")
          /\ UNCHANGED <<k, now, t, holder, nrt, due, sub, kills>>
Kill(p) == /\ pc[p] # "idle" /\ kills < Kills /\ Go(p, "kill", "idle") /\ kills' = kills + 1
           /\ holder' = (IF holder = p THEN 0 ELSE holder)
           /\ sub' = {IF s[2] = p /\ s[3] = k[p] /\ pc[p] = "put" THEN <<s[1], s[2], s[3], TRUE>> ELSE s : s \in sub}
           /\ UNCHANGED <<k, now, t, nrt, due>>
Next == Tick \/ \E p \in Procs : Call(p) \/ Lock(p) \/ Due(p) \/ Sub(p) \/ Put(p) \/ NextRun(p) \/ Unlock(p) \/ Ret(p) \/ Kill(p)

Emit == PrintT("SCRIPT " \o ToJson([h |-> h']))

\* each run once, but for what a dying process could not note
Once == \A r \in 1..Runs : Cardinality({s \in sub : s[1] = r /\ ~s[4]}) <= 1
\* nothing is left behind: a run before the next run time of the task was handed over
NoLoss == \A r \in 1..(nrt - 1) : \E s \in sub : s[1] = r
One == Cardinality({p \in Procs : pc[p] \in {"due", "sub", "put", "next", "unlock"}}) <= 1
=============================================================================
