----------------------------- MODULE ShareTrace -----------------------------
(***************************************************************************)
(* Histories of several processes, each with a scheduler, on shared stores *)
(* with a lock file: one at a time is inside the processing of a store,    *)
(* and each due run is handed over by exactly one of them.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,
          tasks,   \* id -> [sa, st, per]
          retry,
          act, over,
          inside,  \* set of <<p, store>>
          ent,     \* p -> stores it entered in its round
          at,      \* p -> [now, round]
          subs,    \* set of [id, t, p, round, firm]; firm: the next run time of the task is stored
          lost,    \* <<p, round>> that ended by death
          n, skip, bad
vars == <<i, tasks, retry, act, over, inside, ent, at, subs, lost, n, skip, bad>>

RangeOf(s) == {s[k] : k \in DOMAIN s}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
IsRun(task, t) == IF task.per = 0 THEN t = task.st ELSE t >= task.st /\ (t - task.st) % task.per = 0 /\ t <= task.en
Runs(task, now) == IF task.per = 0 THEN (IF task.st <= now THEN {task.st} ELSE {})
                   ELSE {task.st + k * task.per : k \in 0..(IF now < task.st THEN -1 ELSE ((IF now < task.en THEN now ELSE task.en) - task.st) \div task.per)}
Mine(s, e) == s.p = e.p /\ s.round = at[e.p].round
B(cl, d) == <<[cl |-> cl, d |-> ToString(d)]>>
Stores == {tasks[id].sa : id \in DOMAIN tasks}

BadSub(e) ==
  LET ts == RangeOf(e.ts)
      again == {s \in subs : s.id = e.id /\ s.t \in ts /\ (s.firm \/ <<s.p, s.round>> \notin lost)} IN
  IF e.id \notin DOMAIN tasks THEN B("unknown", e)
  ELSE IF <<e.p, tasks[e.id].sa>> \notin inside THEN B("outside", <<e.p, e.id, inside>>)
  ELSE IF \E t \in ts : ~IsRun(tasks[e.id], t) \/ t > at[e.p].now THEN B("undue", <<e.id, e.ts, at[e.p].now>>)
  ELSE IF Len(e.ts) # Cardinality(ts) \/ again # {} THEN B("twice", <<e.id, e.ts, again>>)
  ELSE <<>>

Bad(e) ==
  CASE e.op = "due" -> IF \E x \in inside : x[2] = e.sa /\ x[1] # e.p THEN B("exclusion", <<e.p, e.sa, inside>>) ELSE <<>>
    [] e.op = "sub" -> BadSub(e)
    [] e.op = "ret" /\ e.what = "round" ->
         IF e.r # "ok" THEN B("error", e.r)
         ELSE LET skipped == Stores \ ent[e.p] IN
           IF skipped # {} /\ over[e.p] = {} THEN B("free", <<"passed over although nobody else was there", skipped>>)
           ELSE IF skipped # {} /\ (e.wait < 0 \/ e.wait > retry) THEN B("retry", <<"looks again after", e.wait>>)
           ELSE IF e.wait < 0 THEN B("asleep", "does not look again")
           ELSE <<>>
    [] e.op = "ret" -> IF e.r # "ok" THEN B("error", e.r) ELSE <<>>
    [] e.op = "hang" -> B("hang", e.d)
    [] e.op = "quiet" ->
         LET missed == {<<id, t>> \in UNION {{<<id, t>> : t \in Runs(tasks[id], e.now)} : id \in DOMAIN tasks} :
                          ~\E s \in subs : s.id = id /\ s.t = t} IN
         IF missed # {} THEN B("missed", missed) ELSE <<>>
    [] OTHER -> <<>>

Report(bs, e) == \A k \in 1..Len(bs) :
  PrintT("BAD " \o ToJson([n |-> i, seg |-> e.seg, cl |-> bs[k].cl, props |-> <<"D04">>, d |-> bs[k].d]))

Init == /\ i = 1 /\ tasks = <<>> /\ retry = 0 /\ act = {} /\ over = <<>> /\ inside = {} /\ ent = <<>> /\ at = <<>>
        /\ subs = {} /\ lost = {} /\ n = 0 /\ skip = FALSE /\ bad = 0
Gone(e) == inside' = {x \in inside : x[1] # e.p}
Step ==
  LET e == Log[i] IN
  /\ i <= Len(Log)
  /\ i' = i + 1
  /\ IF e.op = "new"
     THEN /\ tasks' = [id \in {e.tasks[k].id : k \in DOMAIN e.tasks} |-> LET k == CHOOSE k \in DOMAIN e.tasks : e.tasks[k].id = id IN e.tasks[k]]
          /\ retry' = e.retry
          /\ act' = {} /\ over' = <<>> /\ inside' = {} /\ ent' = <<>> /\ at' = <<>> /\ subs' = {} /\ lost' = {} /\ n' = 0
          /\ skip' = FALSE /\ bad' = bad
     ELSE IF skip THEN UNCHANGED <<tasks, retry, act, over, inside, ent, at, subs, lost, n, skip, bad>>
     ELSE LET b == Bad(e) IN
          /\ Report(b, e) /\ bad' = bad + Len(b) /\ skip' = (b # <<>>)
          /\ UNCHANGED <<tasks, retry>>
          /\ CASE e.op = "call" ->
                    /\ act' = act \cup {e.p} /\ n' = n + 1
                    /\ over' = [q \in DOMAIN over \cup {e.p} |-> IF q = e.p THEN act ELSE IF q \in act THEN over[q] \cup {e.p} ELSE over[q]]
                    /\ at' = Put(at, e.p, [now |-> e.now, round |-> n])
                    /\ ent' = Put(ent, e.p, {})
                    /\ UNCHANGED <<inside, subs, lost>>
               [] e.op = "due" -> /\ inside' = inside \cup {<<e.p, e.sa>>} /\ ent' = [ent EXCEPT ![e.p] = @ \cup {e.sa}]
                                  /\ UNCHANGED <<act, over, at, subs, lost, n>>
               [] e.op = "sub" -> /\ subs' = subs \cup {[id |-> e.id, t |-> t, p |-> e.p, round |-> at[e.p].round, firm |-> FALSE] : t \in RangeOf(e.ts)}
                                  /\ UNCHANGED <<act, over, inside, ent, at, lost, n>>
               [] e.op = "put" -> /\ subs' = {IF s.id = e.id /\ s.p = e.p /\ s.round = at[e.p].round THEN [s EXCEPT !.firm = TRUE] ELSE s : s \in subs}
                                  /\ UNCHANGED <<act, over, inside, ent, at, lost, n>>
               [] e.op = "fin" -> /\ inside' = inside \ {<<e.p, e.sa>>}
                                  /\ UNCHANGED <<act, over, ent, at, subs, lost, n>>
               [] e.op = "ret" -> /\ act' = act \ {e.p} /\ Gone(e)
                                  /\ UNCHANGED <<over, ent, at, subs, lost, n>>
               [] e.op = "death" -> /\ act' = act \ {e.p} /\ Gone(e)
                                    /\ lost' = lost \cup {<<e.p, at[e.p].round>>}
                                    /\ UNCHANGED <<over, ent, at, subs, n>>
               [] OTHER -> UNCHANGED <<act, over, inside, ent, at, subs, lost, n>>
Done == i = Len(Log) + 1 /\ PrintT("DONE " \o ToString(bad)) /\ i' = i + 1
        /\ UNCHANGED <<tasks, retry, act, over, inside, ent, at, subs, lost, n, skip, bad>>
Next_ == Step \/ Done
=============================================================================
