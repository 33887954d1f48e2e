-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line: every command is a scheduler of its own which lives   *)
(* for one call on the stored tasks. So a command is the operation of Core *)
(* on a scheduler made of what is stored (T), and what it leaves there.    *)
(* No command runs a task, but the one which is asked to run one.          *)
(***************************************************************************)
EXTENDS Core

\* the scheduler of a command: sts the aliases on the command line
Sched(T, sts) ==
  [cfg |-> [co |-> TRUE, mx |-> 1, gr |-> 1000, idn |-> "", lock |-> FALSE, delay |-> 0],
   st |-> "paused", ref |-> 1, pend |-> <<>>, tasks |-> T,
   sts |-> IF \E k \in DOMAIN sts : sts[k] = "default" THEN sts ELSE Append(sts, "default"),
   exs |-> <<"default">>, fl |-> <<>>, aio |-> {"default"}, per |-> {}, queued |-> {}, sat |-> 0]
Kept(sts, T) == {t \in T : \E k \in DOMAIN sts : sts[k] = t.sa}

\* intervals begin one interval from now
TrOf(tr, now) == IF tr.k = "int" THEN [tr EXCEPT !.st = now + tr.per] ELSE tr
AddArgs(sts, a, now) == [a EXCEPT !.tr = TrOf(@, now), !.sa = sts[1]]
Late1(rt, now, gr) == gr # NONE /\ now - rt > gr
\* the calls of the bodies, missed runs are left out
RECURSIVE Calls(_, _, _)
Calls(T, hands, now) ==
  IF hands = <<>> THEN <<>>
  ELSE LET h == Head(hands)
           t == CHOOSE u \in T : u.id = h.id /\ u.sa = h.sa
           rts == SelectSeq(h.rts, LAMBDA r : ~Late1(r, now, t.gr))
       IN [k \in DOMAIN rts |-> BodyCall(t)] \o Calls(T, Tail(hands), now)

Plain(T) == [ok |-> TRUE, tasks |-> T, calls |-> <<>>]
Refused(T) == [ok |-> FALSE, tasks |-> T, calls |-> <<>>]
Of(T, sts, x, now) == IF x.exc # {"-"} THEN Refused(T) ELSE [ok |-> TRUE, tasks |-> Kept(sts, x.S.tasks), calls |-> Calls(T, x.hand, now)]

\* update: "yes" | "y" (asked, agreed) | "n" (asked, not agreed)
Changed(T, sts, a) == LET x == XUpdate(Sched(T, sts), a) IN x.S.tasks # T
Update(T, sts, a) ==
  LET x == XUpdate(Sched(T, sts), a) IN
  IF a.up = <<>> \/ x.exc # {"-"} THEN Refused(T)
  ELSE IF x.S.tasks = T \/ a.dry THEN Plain(T)
  ELSE IF a.agree = "n" THEN Refused(T)
  ELSE [ok |-> TRUE, tasks |-> x.S.tasks, calls |-> <<>>]

RECURSIVE AddAll(_, _, _, _)
AddAll(T, sts, as, now) ==
  IF as = <<>> THEN Plain(T)
  ELSE LET r == Of(T, sts, XAdd(Sched(T, sts), AddArgs(sts, Head(as), now), now), now)
       IN IF r.ok THEN AddAll(r.tasks, sts, Tail(as), now) ELSE r

\* start: the executors of the command line
ExKind(ty) == CASE ty = "asyncio" -> "asyncio" [] ty = "debug" -> "debug" [] ty \in {"thread", "threads", "pool", "Thread"} -> "thread"
                [] ty \in {"process", "proc", "processpool"} -> "process" [] OTHER -> ""
Workers(x) == IF ExKind(x.ty) \in {"thread", "process"} THEN (IF x.w = 0 THEN 10 ELSE x.w) ELSE 0
GoodStart(a) == a.zone # "Nowhere/At_All" /\ \A k \in DOMAIN a.exs : ExKind(a.exs[k].ty) # ""
ExsOf(a) == LET X == {<<x.al, ExKind(x.ty), Workers(x)>> : x \in Rng(a.exs)}
            IN IF \E x \in X : x[1] = "default" THEN X ELSE X \cup {<<"default", "asyncio", 0>>}

Cmd(T, sts, op, a, now) ==
  LET S == Sched(T, sts) IN
  CASE op = "add" -> Of(T, sts, XAdd(S, AddArgs(sts, a, now), now), now)
    [] op = "update" -> Update(T, sts, a)
    [] op = "pause" -> Of(T, sts, XPauseT(S, a), now)
    [] op = "resume" -> Of(T, sts, XResumeT(S, a, now), now)
    [] op = "remove" -> Of(T, sts, XDelete(S, a), now)
    [] op = "run" -> Of(T, sts, XRun(S, a, now, {}), now)
    [] op = "start" -> IF GoodStart(a) THEN AddAll(T, sts, a.jobs, now) ELSE Refused(T)
    [] op = "doctor" -> IF a.strict /\ a.boot THEN Refused(T) ELSE Plain(T)
    [] op = "bad" -> Refused(T)
    [] op \in {"inspect", "preview"} -> IF a.n \in 1..50 /\ Found(S, a.id, "") THEN Plain(T) ELSE Refused(T)
    [] OTHER -> Plain(T)

(***************************************************************************)
(* What is printed                                                         *)
(***************************************************************************)
KindOf(tr) == CASE tr.k = "int" -> "interval" [] tr.k = "date" -> "date" [] OTHER -> "cron"
State(t) == IF t.nrt = NONE THEN "paused" ELSE "scheduled"
Row(t) == [id |-> t.id, sa |-> t.sa, st |-> State(t), nrt |-> t.nrt, ex |-> t.ex, nm |-> t.nm, fn |-> t.fn, tk |-> KindOf(t.tr)]
Full(t) == Row(t) @@ [co |-> t.co, mx |-> t.mx, gr |-> t.gr]

RECURSIVE Times(_, _, _)
Times(tr, n, k) == IF n = NONE \/ k = 0 THEN <<>> ELSE <<n>> \o Times(tr, Next(tr, n, n), k - 1)
Preview(t, n, now) ==
  LET first == IF t.nrt # NONE THEN t.nrt ELSE Next(t.tr, NONE, now)
      all == Times(t.tr, first, n + 1)
  IN [times |-> SubSeq(all, 1, Min2(n, Len(all))), end |-> Len(all) <= n]

Match(t, a) == /\ a.st \in {"", State(t)} /\ a.ex \in {"", t.ex} /\ a.tk \in {"", KindOf(t.tr)}
               /\ (a.q = "" \/ \E k \in DOMAIN a.hits : a.hits[k] = t.nm)
Key1(r, f) == IF f = "next_run_time" THEN (IF r.nrt = NONE THEN INF ELSE r.nrt) ELSE r.rk
ListOk(T, a, out) ==
  LET want == {Row(t) : t \in {u \in T : Match(u, a)}}
      got == {[f \in DOMAIN r \ {"rk"} |-> r[f]] : r \in Rng(out.rows)}
  IN /\ Len(out.rows) = Cardinality(want) /\ got = want
     /\ \A k \in 1..(Len(out.rows) - 1) :
          LET x == Key1(out.rows[k], a.sort) y == Key1(out.rows[k + 1], a.sort) IN IF a.desc THEN x >= y ELSE x <= y

Bound(x, lo, hi) == Max2(lo, Min2(x, hi))
RECURSIVE AllRuns(_, _, _)
AllRuns(T, n, now) ==
  IF T = {} THEN <<>>
  ELSE LET t == CHOOSE u \in T : TRUE
           p == Preview(t, n, now)
       IN [k \in DOMAIN p.times |-> [t |-> p.times[k], id |-> t.id, sa |-> t.sa]] \o AllRuns(T \ {t}, n, now)
TimelineOk(T, a, now, out) ==
  LET n == Bound(a.per, 1, 10)
      limit == Bound(a.limit, 1, 500)
      all == AllRuns(T, n, now)
      left == BagMinus(all, out.rows)
  IN /\ out.count = Cardinality(T) /\ out.total = Len(all) /\ out.returned = Len(out.rows)
     /\ Len(out.rows) = Min2(limit, Len(all))
     /\ Len(left) = Len(all) - Len(out.rows)             \* every row is one of the runs to come
     /\ \A k \in 1..(Len(out.rows) - 1) : out.rows[k].t <= out.rows[k + 1].t
     /\ \A k \in DOMAIN left : out.rows = <<>> \/ left[k].t >= out.rows[Len(out.rows)].t
     /\ out.ended = Cardinality({t \in T : Preview(t, n, now).end})

\* a scheduler which has not been started has no executors, and reads no store
Unstarted(sts, op, out) ==
  /\ out.all = 0 /\ out.paused = 0 /\ out.sched = 0 /\ out.pend = 0 /\ out.st = "stopped" /\ BagEq(out.sts, sts) /\ out.exs = <<>>
  /\ op # "doctor" \/ (~out.ready /\ out.health = "failed")
  /\ op # "instances" \/ out.n = 1
StatusOk(T, sts, op, out) ==
  LET sn == IF \E k \in DOMAIN sts : sts[k] = "default" THEN sts ELSE Append(sts, "default") IN
  /\ out.all = Cardinality(T) /\ out.paused = Cardinality({t \in T : t.nrt = NONE}) /\ out.sched = out.all - out.paused
  /\ out.pend = 0 /\ out.st = "running" /\ BagEq(out.sts, sn) /\ out.exs = <<"default">>
  /\ op # "doctor" \/ (out.ready /\ out.health = "ok")
  /\ op # "instances" \/ out.n = 1

Show(x) == ToString(x)
DiffOf(t, u) ==
  LET D(k, x, y) == IF x = y THEN {} ELSE {<<k, Show(x), Show(y)>>}
      W(k, x, y) == IF x = y THEN {} ELSE {<<k, x, y>>} IN
  W("nm", t.nm, u.nm) \cup W("ex", t.ex, u.ex) \cup W("fn", t.fn, u.fn) \cup W("ar", t.ar, u.ar) \cup W("kw", t.kw, u.kw)
  \cup D("co", t.co, u.co) \cup D("mx", t.mx, u.mx) \cup D("gr", t.gr, u.gr)
UpdateOk(T, sts, a, out) ==
  LET S == Sched(T, sts)
      old == Lookup(S, a.id, "")
      new == Lookup(XUpdate(S, a).S, a.id, "")
  IN /\ out.id = a.id /\ out.sa = old.sa /\ out.dry = a.dry
     /\ out.changed = (old # new) /\ out.applied = (old # new /\ ~a.dry)
     /\ {<<d[1], d[2], d[3]>> : d \in Rng(out.diff)} = DiffOf(old, new)
     /\ out.applied => out.after = Full(new).nm \o "|" \o new.ex \o "|" \o new.fn \o "|" \o new.ar \o "|" \o new.kw
                                   \o "|" \o Show(new.co) \o "|" \o Show(new.mx) \o "|" \o Show(new.gr)

\* is what was printed right? (checked when the command succeeded and prints JSON)
OutOk(T, sts, op, a, now, out) ==
  LET S == Sched(T, sts) IN
  CASE op = "list" -> ListOk(T, a, out)
    [] op = "preview" -> LET t == Lookup(S, a.id, "") p == Preview(t, a.n, now) IN
         /\ out.times = p.times /\ out.end = p.end /\ out.asked = a.n /\ out.got = Len(p.times)
         /\ out.task = [f \in DOMAIN out.task |-> Row(t)[f]]
    [] op = "inspect" -> LET t == Lookup(S, a.id, "") p == Preview(t, a.n, now) IN
         /\ out.times = p.times /\ out.end = p.end /\ out.asked = a.n /\ out.got = Len(p.times) /\ out.task = Full(t)
    [] op = "timeline" -> TimelineOk(T, a, now, out)
    [] op \in {"status", "doctor", "instances"} -> IF a.boot THEN Unstarted(sts, op, out) ELSE StatusOk(T, sts, op, out)
    [] op = "update" -> UpdateOk(T, sts, a, out)
    [] op = "run" -> out.told
    [] op = "resume" -> out.gone = (\E t \in T : t.id = a.id /\ t = Lookup(S, a.id, "") /\ Next(t.tr, NONE, now) = NONE)
    [] op \in {"add", "pause", "remove"} -> out.told
    [] op = "start" -> out.hooks = <<"sync", "async">> /\ {<<x[1], x[2], x[3]>> : x \in Rng(out.exs)} = ExsOf(a) /\ Len(out.exs) = Cardinality(ExsOf(a))
    [] OTHER -> TRUE
=============================================================================
