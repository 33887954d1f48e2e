------------------------------ MODULE CliTrace ------------------------------
(* Commands given to the real command line, judged by Cli. *)
EXTENDS Cli, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, T, bad
vars == <<i, T, bad>>

Obs(e) == {e.tasks[k] : k \in DOMAIN e.tasks}
Told == {"add", "pause", "remove", "run", "resume", "start"}
\* the tasks in the stores of the command line; the others stay as they are
Seen(e) == {t \in T : \E k \in DOMAIN e.sts : e.sts[k] = t.sa}
Want(e) == LET x == Cmd(Seen(e), e.sts, e.op, e.a, e.now) IN [x EXCEPT !.tasks = @ \cup (T \ Seen(e))]
Bad(e) ==
  LET x == Want(e) IN
     (IF x.ok # (e.rc = 0) THEN {"exit-code"} ELSE {})
  \cup (IF Obs(e) # x.tasks \/ Len(e.tasks) # Cardinality(x.tasks) THEN {"stored-tasks"} ELSE {})
  \cup (IF ~BagEq(e.runs, x.calls) THEN {"runs"} ELSE {})
  \cup (IF x.ok /\ e.rc = 0 /\ (e.json \/ e.op \in Told) /\ ~OutOk(Seen(e), e.sts, e.op, e.a, e.now, e.out) THEN {"output"} ELSE {})
Report(e, bs) == \A b \in bs : PrintT("BAD " \o ToJson([n |-> i, seg |-> e.seg, cl |-> e.op \o "." \o b, props |-> <<"C01">>,
                   d |-> ToString([event |-> e, want |-> Want(e), before |-> T])]))
Init == i = 1 /\ T = {} /\ bad = 0
Step ==
  LET e == Log[i] IN
  /\ i <= Len(Log) /\ i' = i + 1
  /\ IF e.op = "new" THEN T' = {} /\ bad' = bad
     ELSE LET bs == Bad(e) IN Report(e, bs) /\ bad' = bad + Cardinality(bs) /\ T' = Obs(e)
Done == i = Len(Log) + 1 /\ PrintT("DONE " \o ToString(bad)) /\ i' = i + 1 /\ UNCHANGED <<T, bad>>
Next_ == Step \/ Done
=============================================================================
