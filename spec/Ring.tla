-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* The timeline, the audit trail and the log buffer of the dashboard:      *)
(* records in the order they were announced, the newest ones up to a limit.*)
(* "~" is the absence of a text.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Names == [x \in {} |-> ""] @@ (1 :> "scheduler.started") @@ (2 :> "scheduler.shutdown") @@ (4 :> "scheduler.paused")
  @@ (8 :> "scheduler.resumed") @@ (16 :> "executor.added") @@ (32 :> "executor.removed") @@ (64 :> "store.added")
  @@ (128 :> "store.removed") @@ (256 :> "task.all_removed") @@ (512 :> "task.added") @@ (1024 :> "task.removed")
  @@ (2048 :> "task.modified") @@ (4096 :> "task.executed") @@ (8192 :> "task.error") @@ (16384 :> "task.missed")
  @@ (32768 :> "task.submitted") @@ (65536 :> "task.max_instances")
Terminal == {4096, 8192, 16384, 65536, 2}

Has(h, n) == \E k \in 1..(Len(h) - Len(n) + 1) : SubSeq(h, k, k + Len(n) - 1) = n
Keep(s, max) == SubSeq(s, (IF Len(s) > max THEN Len(s) - max ELSE 0) + 1, Len(s))
Reverse(s) == [x \in DOMAIN s |-> s[Len(s) + 1 - x]]
Count(s, P(_)) == Cardinality({x \in DOMAIN s : P(s[x])})
Is(q, f, v) == f \notin DOMAIN q \/ q[f] = v

\* what is kept of an announcement a
Event(a) == LET code == a.code IN
  [no |-> a.no, code |-> code, name |-> Names[code],
   cat |-> IF a.task # "~" THEN "task" ELSE IF code \in {16, 32} THEN "executor" ELSE IF code \in {64, 128} THEN "store" ELSE "scheduler",
   at |-> a.at, alias |-> a.alias, task |-> a.task, store |-> a.store, ident |-> a.ident, det |-> a.det, hay |-> a.hay]
Audit(a) == [no |-> a.no, action |-> a.action, status |-> a.status, ttype |-> a.ttype, target |-> a.target, msg |-> a.msg, actor |-> a.actor,
             at |-> a.at, det |-> a.det, hay |-> a.hay]
Entry(a) == [no |-> a.no, at |-> a.at, level |-> a.level, msg |-> a.msg, logger |-> a.logger, task |-> a.task, run |-> a.run, det |-> a.det,
             upper |-> a.upper, hay |-> a.hay]
Made(kind, a) == CASE kind = "events" -> Event(a) [] kind = "audit" -> Audit(a) [] kind = "logs" -> Entry(a)
\* as it is shown
Shown(kind, r) ==
  CASE kind = "events" -> [code |-> r.code, name |-> r.name, cat |-> r.cat, at |-> r.at, alias |-> r.alias, task |-> r.task, store |-> r.store,
                           ident |-> r.ident, det |-> r.det]
    [] kind = "audit" -> [action |-> r.action, status |-> r.status, ttype |-> r.ttype, target |-> r.target, msg |-> r.msg, actor |-> r.actor,
                          at |-> r.at, det |-> r.det]
    [] kind = "logs" -> [at |-> r.at, level |-> r.level, msg |-> r.msg, logger |-> r.logger, task |-> r.task, det |-> r.det]

Matches(kind, r, q) ==
  /\ CASE kind = "events" -> Is(q, "cat", r.cat) /\ Is(q, "name", r.name) /\ Is(q, "task", r.task)
            /\ ("q" \in DOMAIN q => Has(r.name \o " " \o r.cat \o " " \o r.hay, q.q))
       [] kind = "audit" -> Is(q, "action", r.action) /\ Is(q, "status", r.status) /\ ("q" \in DOMAIN q => Has(r.hay, q.q))
       [] kind = "logs" -> Is(q, "task", r.task) /\ Is(q, "run", r.run) /\ Is(q, "upper", r.upper) /\ ("q" \in DOMAIN q => Has(r.hay, q.q))
                           /\ ("since" \in DOMAIN q => r.at >= q.since) /\ ("until" \in DOMAIN q => r.at <= q.until)
Answer(kind, s, q, limit) ==
  LET m == SelectSeq(Reverse(s), LAMBDA r : Matches(kind, r, q)) IN
  [x \in 1..(IF limit <= 0 THEN 0 ELSE IF Len(m) < limit THEN Len(m) ELSE limit) |-> Shown(kind, m[x])]
Sum(kind, s) ==
  CASE kind = "events" -> [total |-> Len(s), scheduler |-> Count(s, LAMBDA r : r.cat = "scheduler"), task |-> Count(s, LAMBDA r : r.cat = "task"),
                           terminal |-> Count(s, LAMBDA r : r.code \in Terminal)]
    [] kind = "audit" -> [total |-> Len(s), succeeded |-> Count(s, LAMBDA r : r.status = "succeeded"),
                          failed |-> Count(s, LAMBDA r : r.status = "failed"), warning |-> Count(s, LAMBDA r : r.status = "warning")]

\* the states an operation may lead to: none if the answer is not right
Run(kind, max, s, o) ==
  CASE o.op = "add" -> {Keep(Append(s, Made(kind, o)), max)}
    [] o.op = "clear" -> {<<>>}
    [] o.op = "query" -> IF o.res = Answer(kind, s, o.f, o.limit) THEN {s} ELSE {}
    [] o.op = "sum" -> IF o.res = Sum(kind, s) THEN {s} ELSE {}
    [] o.op = "none" -> {s}
Both(kind, max, s, a, b) ==
  UNION {Run(kind, max, t, b) : t \in Run(kind, max, s, a)} \cup UNION {Run(kind, max, t, a) : t \in Run(kind, max, s, b)}
=============================================================================
