------------------------------- MODULE SchedMC -------------------------------
(***************************************************************************)
(* Bounded model of one scheduler: every history of at most MaxLen calls   *)
(* from a small repertoire.  Checks the listed properties on the           *)
(* specification itself (Core), and prints one script for every transition *)
(* it explores; the scripts are replayed into the real scheduler.          *)
(***************************************************************************)
EXTENDS Core, Json, IOUtils

CONSTANTS Mode, MaxLen, MaxTime
ModeDef == IOEnv.MODE
LenDef == atoi(IOEnv.LEN)

VARIABLES S, now, n, script, disp, nb, runs, armed
vars == <<S, now, n, script, disp, nb, runs, armed>>
\* what makes two states different: not how they were reached
View == <<[S EXCEPT !.fl = [k \in 1..Len(@) |-> [@[k] EXCEPT !.b = k]]], now, armed, disp, n = MaxLen>>

Tr(k) == [k |-> k, at |-> NONE, st |-> NONE, per |-> 0, en |-> NONE, ts |-> <<>>, fk |-> "", parts |-> <<>>]
IntT(st, per, en) == [Tr("int") EXCEPT !.st = st, !.per = per, !.en = en]
Date(at) == [Tr("date") EXCEPT !.at = at]
List(ts, fk) == [Tr("list") EXCEPT !.ts = ts, !.fk = fk]

Add(id, tr, nrt, co, mx, gr, rep, body) ==
  [id |-> id, sa |-> "", tr |-> tr, nrt |-> nrt, ex |-> "", co |-> co, mx |-> mx, gr |-> gr, nm |-> "",
   rep |-> rep, fn |-> IF tr.k = "shut" THEN "shut_body" ELSE "sync_body",
   ar |-> "[\"" \o body \o "\"]", kw |-> "{}", how |-> "call", mis |-> FALSE, okargs |-> TRUE]

Adds ==
  CASE Mode = "rounds" -> {Add("a", IntT(1000, 1000, 3000), UNDEF, 0, 1, NONE, FALSE, "ok"),
                           Add("b", List(<<1000, 3000>>, "1000,3000"), UNDEF, 1, 2, NONE, FALSE, "ok"),
                           Add("c", Date(2000), UNDEF, 1, 1, NONE, FALSE, "ok")}
    [] Mode = "life"   -> {Add("a", IntT(1000, 1000, NONE), UNDEF, 1, 1, NONE, TRUE, "ok"),
                           Add("q", Tr("shut"), UNDEF, 1, 1, NONE, FALSE, "ok"),
                           Add("r", Tr("shut"), UNDEF, 1, 1, NONE, FALSE, "err")}
    [] Mode = "edits"  -> {Add("a", IntT(1000, 1000, NONE), UNDEF, 1, 1, NONE, FALSE, "ok"),
                           Add("a", List(<<1000>>, "1000"), NONE, 0, 2, 500, TRUE, "ok")}
    [] Mode = "manual" -> {Add("a", IntT(1000, 1000, 2000), UNDEF, 0, 2, NONE, FALSE, "ok"),
                           Add("b", Date(1000), UNDEF, 1, 1, NONE, FALSE, "ok")}
    [] Mode = "limits" -> {Add("a", IntT(0, 1000, NONE), UNDEF, 1, 1, 1500, FALSE, "err"),
                           Add("b", IntT(0, 1000, NONE), UNDEF, 0, 2, 500, FALSE, "ok")}
Ids == {a.id : a \in Adds}
Ref(i) == [id |-> i, sa |-> ""]
Up(k, t, i, s, tr) == [k |-> k, t |-> t, i |-> i, s |-> s, tr |-> tr, ok |-> TRUE]
Updates(i) ==
  {[id |-> i, sa |-> "", okargs |-> TRUE, up |-> us] : us \in
    {<<Up("nrt", "int", 2000, "", Tr("?"))>>, <<Up("nrt", "none", NONE, "", Tr("?")), Up("nm", "str", 0, "n1", Tr("?"))>>,
     <<Up("gr", "int", 1000, "", Tr("?")), Up("mx", "int", 0, "", Tr("?"))>>,
     <<Up("tr", "trig", 0, "", Date(2000)), Up("co", "bool", 0, "", Tr("?"))>>}}

\* <<operation, argument>> that may come next
Calls ==
  LET life == {<<"start", [paused |-> FALSE]>>, <<"shutdown", [wait |-> TRUE]>>}
      stop == {<<"pause", [x |-> 0]>>, <<"resume", [x |-> 0]>>}
      adds == {<<"add", a>> : a \in Adds}
      rnd == {<<"round", [x |-> 0]>>}
      run(i) == {<<"run", [id |-> i, sa |-> "", force |-> f, rmf |-> r]>> : f \in BOOLEAN, r \in BOOLEAN}
  IN CASE Mode = "rounds" -> adds \cup rnd
       [] Mode = "life" -> life \cup stop \cup adds \cup {<<"start", [paused |-> TRUE]>>, <<"setup", [x |-> 0]>>} \cup rnd
       [] Mode = "edits" -> adds \cup rnd \cup
            UNION {{<<"pauset", Ref(i)>>, <<"resumet", Ref(i)>>, <<"del", Ref(i)>>,
                    <<"resched", [id |-> i, sa |-> "", tr |-> List(<<0, 2000>>, "0,2000")]>>}
                   \cup {<<"update", u>> : u \in Updates(i)} : i \in Ids}
            \cup {<<"start", [paused |-> FALSE]>>}
       [] Mode = "manual" -> adds \cup rnd \cup UNION {run(i) : i \in Ids}
            \cup {<<"pauset", Ref("a")>>}
       [] Mode = "limits" -> adds \cup rnd \cup
            {<<"run", [id |-> i, sa |-> "", force |-> TRUE, rmf |-> TRUE]>> : i \in Ids}
            \cup {<<"update", [id |-> "b", sa |-> "", okargs |-> TRUE, up |-> <<Up("mx", "int", 1, "", Tr("?"))>>]>>}

Expect(s, op, a, t) ==
  CASE op = "start" -> XStart(s, a, t, {})
    [] op = "shutdown" -> XShutdown(s, a)
    [] op = "pause" -> XPause(s)
    [] op = "resume" -> XResume(s)
    [] op = "setup" -> XSetup(s)
    [] op = "add" -> XAdd(s, a, t)
    [] op = "update" -> XUpdate(s, a)
    [] op = "resched" -> XResched(s, a, t)
    [] op = "pauset" -> XPauseT(s, a)
    [] op = "resumet" -> XResumeT(s, a, t)
    [] op = "del" -> XDelete(s, a)
    [] op = "run" -> XRun(s, a, t, {})
    [] op = "round" -> XRound(s, t, {})

S0 ==
  [cfg |-> [gr |-> 1000, co |-> TRUE, mx |-> 1, retry |-> 10000, lock |-> FALSE, delay |-> 0, man |-> TRUE, idn |-> "sched-x"],
   st |-> "stopped", ref |-> 0, pend |-> <<>>, tasks |-> {}, sts |-> <<"default">>, exs |-> <<"default">>, fl |-> <<>>,
   per |-> {}, aio |-> {}, queued |-> {"default"}, sat |-> NONE, lis |-> <<>>, armed |-> INF, slack |-> NONE]

RECURSIVE Take(_, _, _)
Take(s, hs, b) ==
  IF hs = <<>> THEN s
  ELSE LET h == Head(hs)
           ts == {t \in s.tasks : Key(t) = <<h.sa, h.id>>}
       IN Take([s EXCEPT !.fl = Append(@, NewBatch(b, h, NONE, {t.gr : t \in ts}, {}))], Tail(hs), b + 1)

MinNrt(T) == LET ns == {t.nrt : t \in T} \ {NONE} IN IF ns = {} THEN INF ELSE MinOf(ns)
Wakes == {"start", "resume", "add", "update", "resched", "resumet", "run"}

Init ==
  /\ S = IF Mode \in {"life", "edits"} THEN S0 ELSE XStart(S0, [paused |-> FALSE], 0, {}).S
  /\ now = 0 /\ n = 0 /\ nb = 1 /\ runs = <<>> /\ disp = {} /\ armed = INF
  /\ script = IF Mode \in {"life", "edits"} THEN <<>> ELSE <<<<"start", [paused |-> FALSE]>>>>

\* a run time of a task is disposed of: handed over, refused, or left out by coalescing
Disposed(op, x) ==
  IF op # "round" \/ x.exc # {"-"} \/ S.st # "running" THEN {}
  ELSE UNION {{<<t.id, r>> : r \in Rng(RunTimes(t.tr, t.nrt, now))} : t \in DueOf(S, now, {})}

Call ==
  /\ n < MaxLen
  /\ \E c \in Calls :
       LET x == Expect(S, c[1], c[2], now)
           fl0 == [x.S EXCEPT !.fl = <<>>]
       IN /\ c[1] = "setup" => S.st # "stopped"
          /\ S' = [Take([S EXCEPT !.fl = x.S.fl], x.hand, nb) EXCEPT
                     !.st = x.S.st, !.ref = x.S.ref, !.pend = x.S.pend, !.tasks = x.S.tasks, !.sat = x.S.sat]
          /\ nb' = nb + Len(x.hand)
          /\ script' = Append(script, c)
          /\ disp' = disp \cup Disposed(c[1], x)
          /\ armed' = IF c[1] = "round" /\ S.st = "running" THEN Max2(now, MinNrt(x.S.tasks))
                      ELSE IF c[1] \in Wakes /\ x.S.st = "running" THEN now ELSE armed
  /\ n' = n + 1 /\ UNCHANGED <<now, runs>>
Tick ==
  /\ now < MaxTime
  /\ now' = now + 1000
  /\ script' = Append(script, <<"adv", [to |-> now + 1000]>>)
  /\ n' = n + 1
  /\ n < MaxLen
  /\ UNCHANGED <<S, disp, nb, runs, armed>>
\* one submitted batch is run
Outcome(b) == [k \in 1..Len(b.rts) |->
  [b |-> b.b, rt |-> b.rts[k], o |-> IF \E gr \in b.grs : Late(b.rts[k], now, gr) THEN "missed" ELSE "run"]]
Begin ==
  /\ Mode \in {"limits", "manual"} /\ n < MaxLen /\ S.fl # <<>>
  /\ \E k \in 1..Len(S.fl) :
       /\ S' = [S EXCEPT !.fl = RemoveAt(@, k)]
       /\ runs' = runs \o Outcome(S.fl[k])
       /\ script' = Append(script, <<"begin", [ex |-> "default", i |-> k - 1]>>)
  /\ n' = n + 1 /\ UNCHANGED <<now, disp, nb, armed>>
Next_ == Call \/ Tick \/ Begin
Spec == Init /\ [][Next_]_vars

(***************************************************************************)
(* The properties                                                          *)
(***************************************************************************)
\* run times of a trigger, defined without reference to Next
Times(tr, lo, hi) ==
  CASE tr.k = "int" -> {t \in {tr.st + k * tr.per : k \in 0..10} : t >= lo /\ t <= hi /\ (tr.en = NONE \/ t <= tr.en)}
    [] tr.k = "list" -> {t \in Rng(tr.ts) : t >= lo /\ t <= hi}
    [] tr.k = "date" -> {t \in {tr.at} : t <= hi}
    [] OTHER -> {}

\* S01 (histories without edits): after a round everything due was disposed of, once
RoundComplete ==
  Mode = "rounds" /\ script # <<>> /\ script[Len(script)][1] = "round" =>
    /\ \A t \in S.tasks : t.nrt = NONE \/ t.nrt > now
    /\ \A k \in 1..Len(script) : script[k][1] = "add" =>
         LET a == script[k][2]
             first == \A m \in 1..(k - 1) : script[m][1] = "add" => script[m][2].id # a.id
             ticks == Cardinality({m \in 1..(k - 1) : script[m][1] = "adv"})
         IN first => {<<a.id, t>> : t \in Times(a.tr, ticks * 1000, now)} \subseteq disp
RoundOnce ==
  [][\A c \in {script'[Len(script')]} : c[1] = "round" /\ Mode = "rounds" =>
       LET again == {a.id : a \in {b \in Adds : Cardinality({k \in DOMAIN script' :
                        script'[k][1] = "add" /\ script'[k][2].id = b.id}) > 1}}
       IN \A d \in Disposed("round", XRound(S, now, {})) : d \in disp => d[1] \in again]_vars
\* S02
NoEarlyHand ==
  [][LET c == script'[Len(script')]
         x == XRound(S, now, {})
     IN c[1] = "round" =>
          /\ S.st # "running" => x.hand = <<>>
          /\ \A k \in 1..Len(x.hand) :
               /\ \A r \in Rng(x.hand[k].rts) : r <= now
               /\ \E t \in S.tasks : t.id = x.hand[k].id /\ t.nrt # NONE /\ t.nrt <= now]_vars
\* S03
Limit == \A t \in S.tasks : Inst(S, t) <= 2
LimitStep ==
  [][\A t \in S.tasks : Inst(S, t) >= t.mx =>
       \A u \in S'.tasks : u.id = t.id => Inst(S', u) <= Inst(S, t)]_vars
\* S04
Armed == S.st = "running" => (MinNrt(S.tasks) = INF \/ armed <= Max2(now, MinNrt(S.tasks)))
\* S05
RefOk == /\ (S.ref = 0) = (S.st = "stopped")
         /\ S.ref >= 0
         /\ (S.st = "stopped") = (S.sat = NONE)
         /\ S.st = "stopped" => S.tasks = {}
         /\ S.st # "stopped" => S.pend = <<>>
StateSteps ==
  [][LET op == script'[Len(script')][1] IN
     S'.st # S.st => <<S.st, op, S'.st>> \in
       {<<"stopped", "start", "running">>, <<"stopped", "start", "paused">>, <<"running", "pause", "paused">>,
        <<"paused", "resume", "running">>, <<"running", "shutdown", "stopped">>, <<"paused", "shutdown", "stopped">>}]_vars
\* S06
ShutdownRuns ==
  [][LET c == script'[Len(script')]
         x == XShutdown(S, [wait |-> TRUE])
     IN c[1] = "shutdown" =>
          /\ Len(x.body) = (IF S.ref = 1 THEN Cardinality({t \in S.tasks : t.tr.k = "shut"}) ELSE 0)
          /\ S.ref # 1 => S'.tasks = S.tasks]_vars
NoShutInRound == \A k \in 1..Len(S.fl) : S.fl[k].id \notin {"q", "r"}
\* S07
OutcomeOnce ==
  /\ \A i, j \in 1..Len(runs) : i # j => <<runs[i].b, runs[i].rt>> # <<runs[j].b, runs[j].rt>>
  /\ \A i, j \in 1..Len(runs) : i < j /\ runs[i].b = runs[j].b => runs[i].rt < runs[j].rt
  /\ \A k \in 1..Len(S.fl) : \A i \in 1..Len(runs) : runs[i].b # S.fl[k].b
\* S10, S13: a refused call changes nothing, an edit touches one task only
Refusals ==
  [][LET c == script'[Len(script')] IN
     c[1] \in {"add", "update", "resched", "pauset", "resumet", "del", "run", "pause", "resume", "shutdown", "setup"} =>
       LET x == Expect(S, c[1], c[2], now) IN
       /\ "-" \notin x.exc => S'.tasks = S.tasks /\ S'.pend = S.pend /\ S'.fl = S.fl /\ S'.st = S.st /\ S'.ref = S.ref
       /\ c[1] \in {"add", "update", "resched", "pauset", "resumet", "del", "run"} =>
            {t \in S'.tasks : t.id # c[2].id} = {t \in S.tasks : t.id # c[2].id}]_vars
Unique == /\ \A t, u \in S.tasks : t # u => Key(t) # Key(u)
\* S11
ManualRun ==
  [][LET c == script'[Len(script')] IN
     c[1] = "run" /\ Len(S'.fl) > Len(S.fl) =>
       LET h == S'.fl[Len(S'.fl)]
           after == {t \in S'.tasks : t.id = c[2].id}
       IN /\ Len(S'.fl) = Len(S.fl) + 1 /\ h.id = c[2].id /\ h.rts # <<>>
          /\ \A t \in after : t.nrt = NONE \/ (t.nrt > now /\ t.nrt > h.rts[Len(h.rts)])
          /\ c[2].rmf => \A t \in after : t.nrt # NONE]_vars

\* every transition once, as a script
Emit == PrintT("SCRIPT " \o ToJson(script'))
=============================================================================
