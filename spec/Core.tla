-------------------------------- MODULE Core --------------------------------
(***************************************************************************)
(* The scheduler as a functional state machine.                            *)
(*                                                                         *)
(* A scheduler state is a record S with                                    *)
(*   cfg    defaults and options (see Reset in SchedTrace / Init in SchedMC)*)
(*   st     "stopped" | "paused" | "running"                               *)
(*   ref    number of starts without matching shutdown                     *)
(*   pend   <<[t, rep, go]>>  tasks added while stopped                    *)
(*   tasks  set of task records in the stores                              *)
(*   sts    <<store aliases>>, exs <<executor aliases>> in insertion order *)
(*   fl     <<batches in progress>>                                        *)
(* Operations are modelled by operators  XOp(S, a, now, env)  which yield   *)
(* an expectation record:                                                  *)
(*   exc  allowed exception names ("-" none, "*" any exception)            *)
(*   ret  allowed results ({} any)                                         *)
(*   ev   events announced by the operation itself (a bag)                 *)
(*   hand runs handed to executors (a bag)                                 *)
(*   body direct calls of task bodies (shutdown tasks, a bag)              *)
(*   S    the state afterwards                                             *)
(*   alt  further allowed task records, may: keys which may be gone        *)
(*   opt  hand-offs which may or may not happen (faults)                   *)
(* Time is in milliseconds, NONE = -1 stands for "no time".                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NONE  == -1
UNDEF == -2
INF   == 2147483647

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
MaxOf(s) == CHOOSE x \in s : \A y \in s : x >= y
CeilDiv(a, b) == (a + b - 1) \div b          \* a >= 0, b > 0
Rng(s) == {s[i] : i \in 1..Len(s)}
CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
BagEq(a, b) == /\ Len(a) = Len(b)
               /\ \A i \in 1..Len(a) : CountIn(a, a[i]) = CountIn(b, a[i])
\* elements of a that are not matched in b
BagMinus(a, b) ==
  LET RECURSIVE F(_, _)
      F(x, y) == IF x = <<>> THEN <<>>
                 ELSE LET h == Head(x)
                          js == {j \in 1..Len(y) : y[j] = h}
                      IN IF js = {} THEN <<h>> \o F(Tail(x), y)
                         ELSE F(Tail(x), RemoveAt(y, MinOf(js)))
  IN F(a, b)

(***************************************************************************)
(* Triggers                                                                *)
(***************************************************************************)
FirstFrom(ts, lo) == LET s == {ts[i] : i \in {j \in 1..Len(ts) : ts[j] >= lo}}
                     IN IF s = {} THEN NONE ELSE MinOf(s)

RECURSIVE Next(_, _, _)
RECURSIVE AndSearch(_, _, _)
Next(tr, prev, now) ==
  CASE tr.k = "date" -> IF prev = NONE THEN tr.at ELSE NONE
    [] tr.k = "int"  ->
         LET c == IF prev # NONE THEN prev + tr.per
                  ELSE IF tr.st > now THEN tr.st
                  ELSE tr.st + CeilDiv(now - tr.st, tr.per) * tr.per
         IN IF tr.en # NONE /\ c > tr.en THEN NONE ELSE c
    [] tr.k = "cron" ->   \* every second divisible by per/1000 (per divides a minute)
         LET lo == IF prev # NONE THEN Min2(now, prev + 1) ELSE now
             lo2 == IF prev # NONE /\ lo = prev THEN prev + 1 ELSE lo
             c == CeilDiv(lo2, tr.per) * tr.per
         IN IF tr.en # NONE /\ c > tr.en THEN NONE ELSE c
    [] tr.k = "list" -> IF prev # NONE THEN FirstFrom(tr.ts, prev + 1) ELSE FirstFrom(tr.ts, now)
    [] tr.k = "shut" -> NONE
    [] tr.k = "or" ->    \* everything the parts yield after the previous time
         LET From1(p) == IF prev = NONE THEN Next(p, NONE, now)
                         ELSE LET x == Next(p, NONE, prev + 1)
                              IN IF x # NONE /\ x <= prev THEN Next(p, prev, prev + 1) ELSE x
             s == {From1(tr.parts[i]) : i \in 1..Len(tr.parts)} \ {NONE}
         IN IF s = {} THEN NONE ELSE MinOf(s)
    [] tr.k = "and" -> AndSearch(tr, IF prev # NONE THEN prev + 1 ELSE now, 200)
    [] OTHER -> NONE
\* earliest time >= lo at which all parts fire
AndSearch(tr, lo, fuel) ==
  LET s == {Next(tr.parts[i], NONE, lo) : i \in 1..Len(tr.parts)}
  IN IF NONE \in s \/ fuel = 0 THEN NONE
     ELSE IF Cardinality(s) = 1 THEN MinOf(s)
     ELSE IF MinOf(s) < lo THEN NONE
     ELSE AndSearch(tr, MaxOf(s), fuel - 1)

\* all due run times from nrt on
RECURSIVE RunTimes(_, _, _)
RunTimes(tr, nrt, now) ==
  IF nrt = NONE \/ nrt > now THEN <<>>
  ELSE <<nrt>> \o RunTimes(tr, Next(tr, nrt, now), now)

Taken(t, now) == LET r == RunTimes(t.tr, t.nrt, now)
                 IN IF t.co /\ r # <<>> THEN <<r[Len(r)]>> ELSE r
LeftOut(t, now) == LET r == RunTimes(t.tr, t.nrt, now)
                   IN IF t.co /\ r # <<>> THEN Len(r) - 1 ELSE 0

(***************************************************************************)
(* Events                                                                  *)
(***************************************************************************)
cSTART == 1      cSHUTDOWN == 2   cPAUSED == 4     cRESUMED == 8
cEXADD == 16     cEXREM == 32     cSTADD == 64     cSTREM == 128
cALLREM == 256   cADDED == 512    cREMOVED == 1024 cMODIFIED == 2048
cEXECUTED == 4096 cERROR == 8192  cMISSED == 16384
cSUBMITTED == 32768 cMAX == 65536
Outcomes == {cEXECUTED, cERROR, cMISSED}

RECURSIVE Bit(_, _)
Bit(m, c) == IF c = 1 THEN m % 2 = 1 ELSE Bit(m \div 2, c \div 2)

Ev(c, id, st, al, rts, src, cc, idn) ==
  [c |-> c, id |-> id, st |-> st, al |-> al, rts |-> rts, src |-> src, cc |-> cc, idn |-> idn]
SysEv(c, al) == Ev(c, "", "", al, <<>>, "", 0, "")
TaskEv(S, c, id, st, al) == Ev(c, id, st, al, <<>>, "", 0, S.cfg.idn)
SubEv(S, c, t, rts, src, cc) == Ev(c, t.id, t.sa, "None", rts, src, cc, S.cfg.idn)
Hand(t, rts) == [id |-> t.id, sa |-> t.sa, ex |-> t.ex, rts |-> rts]

(***************************************************************************)
(* Access                                                                  *)
(***************************************************************************)
Key(t) == <<t.sa, t.id>>
Keys(ts) == {Key(t) : t \in ts}
InStore(S, sa) == {t \in S.tasks : t.sa = sa}
HasStore(S, sa) == \E i \in 1..Len(S.sts) : S.sts[i] = sa
HasExec(S, ex) == \E i \in 1..Len(S.exs) : S.exs[i] = ex
Scheduled(S) == {t \in S.tasks : t.nrt # NONE}
Stopped(S) == S.st = "stopped"

\* index of the pending entry / the store of a task, 0 if there is none ("" = any store)
PendIdx(S, id, sa) ==
  LET is == {i \in 1..Len(S.pend) : S.pend[i].t.id = id /\ sa \in {"", S.pend[i].t.sa}}
  IN IF is = {} THEN 0 ELSE MinOf(is)
StoreIdx(S, id, sa) ==
  LET is == {i \in 1..Len(S.sts) : sa \in {"", S.sts[i]} /\ \E t \in S.tasks : t.id = id /\ t.sa = S.sts[i]}
  IN IF is = {} THEN 0 ELSE MinOf(is)
Found(S, id, sa) == IF Stopped(S) THEN PendIdx(S, id, sa) # 0 ELSE StoreIdx(S, id, sa) # 0
Lookup(S, id, sa) ==
  IF Stopped(S) THEN S.pend[PendIdx(S, id, sa)].t
  ELSE CHOOSE t \in S.tasks : t.id = id /\ t.sa = S.sts[StoreIdx(S, id, sa)]
EvStore(S, t) == IF Stopped(S) THEN "None" ELSE t.sa
Put(S, t) == [S EXCEPT !.tasks = {u \in @ : Key(u) # Key(t)} \cup {t}]
Drop(S, t) == [S EXCEPT !.tasks = {u \in @ : Key(u) # Key(t)}]
\* write a changed task back to where it was found
Write(S, old, new) ==
  IF Stopped(S)
  THEN LET i == PendIdx(S, old.id, old.sa) IN [S EXCEPT !.pend[i].t = new]
  ELSE Put(Drop(S, old), new)

\* instances of a task in progress (on whatever executor)
Inst(S, t) == Cardinality({i \in 1..Len(S.fl) : S.fl[i].id = t.id /\ ~S.fl[i].freed})

Same(S) == [exc |-> {"-"}, ret |-> {}, ev |-> <<>>, hand |-> <<>>, body |-> <<>>, S |-> S,
            alt |-> {}, may |-> {}, opt |-> <<>>, lax |-> FALSE]
Refuse(S, names) == [Same(S) EXCEPT !.exc = names]

(***************************************************************************)
(* Life cycle                                                              *)
(***************************************************************************)
\* scheduling of a newly added task, delay: start-up delay bound (or NONE)
Admit(t, go, now, lower) ==
  LET n == IF t.nrt = NONE /\ go THEN Next(t.tr, NONE, now) ELSE t.nrt
  IN [t EXCEPT !.nrt = IF n # NONE /\ lower # NONE THEN Max2(n, lower) ELSE n]

AddedEv(S, t) == TaskEv(S, cADDED, t.id, "None", t.sa)

\* adds the pending entries in order; stops at an unknown store
RECURSIVE AddPending(_, _, _, _, _)
AddPending(S, ps, now, lower, evs) ==
  IF ps = <<>> THEN [S |-> S, ev |-> evs, ok |-> TRUE, left |-> <<>>]
  ELSE LET p == Head(ps)
           t == Admit(p.t, p.go, now, lower)
           conflict == \E u \in S.tasks : Key(u) = Key(t)
       IN IF ~HasStore(S, t.sa) THEN [S |-> S, ev |-> evs, ok |-> FALSE, left |-> ps]
          ELSE IF conflict /\ ~p.rep THEN AddPending(S, Tail(ps), now, lower, evs)
          ELSE AddPending(Put(S, t), Tail(ps), now, lower, evs \o <<AddedEv(S, t)>>)

XStart(S, a, now, faults) ==
  IF S.ref > 0
  THEN [Same([S EXCEPT !.ref = @ + 1]) EXCEPT !.ret = {"false"}]
  ELSE LET e1 == IF HasExec(S, "default") THEN <<>> ELSE <<SysEv(cEXADD, "default")>>
           s1 == IF HasExec(S, "default") THEN S ELSE [S EXCEPT !.exs = Append(@, "default")]
           e2 == IF HasStore(S, "default") THEN <<>> ELSE <<SysEv(cSTADD, "default")>>
           s2 == IF HasStore(S, "default") THEN s1 ELSE [s1 EXCEPT !.sts = Append(@, "default")]
           lower == IF S.cfg.lock THEN now + S.cfg.delay ELSE NONE
           r == AddPending(s2, S.pend, now, lower, <<>>)
       IN IF faults # {}
          THEN \* failed while starting: stopped as before
               [Refuse(s2, {"*"}) EXCEPT !.lax = TRUE]
          ELSE IF ~r.ok
          THEN [Refuse([r.S EXCEPT !.pend = r.left], {"KeyError"}) EXCEPT !.ev = e1 \o e2 \o r.ev]
          ELSE [Same([r.S EXCEPT !.st = IF a.paused THEN "paused" ELSE "running",
                                 !.ref = 1, !.pend = <<>>, !.sat = now])
                EXCEPT !.ret = {"true"}, !.ev = e1 \o e2 \o r.ev \o <<SysEv(cSTART, "None")>>]

ShutTasks(S) == {t \in S.tasks : t.tr.k = "shut"}
BodyCall(t) == [fn |-> t.fn, ar |-> t.ar, kw |-> t.kw]
\* runs on the event loop are cancelled, unless they are already finished
Cancel(S, exs) == [S EXCEPT !.fl = SelectSeq(@, LAMBDA b : b.ex \notin exs \/ b.pos > Len(b.rts))]

XShutdown(S, a) ==
  IF Stopped(S) THEN Refuse(S, {"SchedulerNotRunningError"})
  ELSE IF S.ref > 1 THEN [Same([S EXCEPT !.ref = @ - 1]) EXCEPT !.ret = {"false"}]
  ELSE LET s1 == Cancel(S, S.aio)
           gone == {t \in S.tasks : t.tr.k = "shut" \/ t.sa \notin S.per}
       IN [Same([s1 EXCEPT !.st = "stopped", !.ref = 0, !.tasks = @ \ gone, !.sat = NONE])
           EXCEPT !.ret = {"true"}, !.ev = <<SysEv(cSHUTDOWN, "None")>>,
                  !.body = SetToSeq({<<Key(t), BodyCall(t)>> : t \in ShutTasks(S)})]

XPause(S) ==
  IF Stopped(S) THEN Refuse(S, {"SchedulerNotRunningError"})
  ELSE IF S.st = "running"
       THEN [Same([S EXCEPT !.st = "paused"]) EXCEPT !.ev = <<SysEv(cPAUSED, "None")>>]
       ELSE Same(S)
XResume(S) ==
  IF Stopped(S) THEN Refuse(S, {"SchedulerNotRunningError"})
  ELSE IF S.st = "paused"
       THEN [Same([S EXCEPT !.st = "running"]) EXCEPT !.ev = <<SysEv(cRESUMED, "None")>>]
       ELSE Same(S)
XSetup(S) == Refuse(S, {"SchedulerAlreadyRunningError"})    \* only used while not stopped

(***************************************************************************)
(* Adding and editing tasks                                                *)
(***************************************************************************)
TaskOf(S, a) ==
  LET gr == IF a.gr # UNDEF THEN a.gr
            ELSE IF a.how = "obj" THEN NONE
            ELSE IF a.mis THEN NONE ELSE S.cfg.gr
  IN [id |-> a.id, sa |-> IF a.sa = "" THEN "default" ELSE a.sa,
      nrt |-> IF a.nrt = UNDEF THEN NONE ELSE a.nrt, tr |-> a.tr,
      ex |-> IF a.ex = "" THEN "default" ELSE a.ex,
      co |-> IF a.co # UNDEF THEN a.co = 1 ELSE IF a.how = "obj" THEN TRUE ELSE S.cfg.co,
      mx |-> IF a.mx # UNDEF THEN a.mx ELSE IF a.how = "obj" THEN 1 ELSE S.cfg.mx,
      gr |-> gr, nm |-> IF a.nm = "" THEN a.fn ELSE a.nm, fn |-> a.fn, ar |-> a.ar, kw |-> a.kw]

AddInvalid(a) == ~a.okargs \/ (a.mx # UNDEF /\ a.mx <= 0) \/ (a.gr # UNDEF /\ a.gr # NONE /\ a.gr <= 0)

XAdd(S, a, now) ==
  LET t == TaskOf(S, a)
      go == a.nrt # NONE
      rep == a.rep \/ a.how = "deco"
      t2 == Admit(t, go, now, NONE)
      conflict == \E u \in S.tasks : Key(u) = Key(t)
      ok(s, evs) == [Same(s) EXCEPT !.ret = {"task:" \o a.id}, !.ev = evs]
  IN IF AddInvalid(a) THEN Refuse(S, {"*"})
     ELSE IF Stopped(S)
     THEN ok([S EXCEPT !.pend = Append(@, [t |-> t, rep |-> rep, go |-> go])], <<>>)
     ELSE IF ~HasStore(S, t.sa) THEN Refuse(S, {"KeyError"})
     ELSE IF conflict /\ ~rep THEN Refuse(S, {"ConflictIdError"})
     ELSE ok(Put(S, t2), <<AddedEv(S, t2)>>)

\* one change [k, t, i, s, tr]: valid?
UpdOk(u) ==
  CASE u.k = "nrt" -> TRUE
    [] u.k = "gr"  -> u.t = "none" \/ (u.t = "int" /\ u.i > 0)
    [] u.k = "mx"  -> u.t = "int" /\ u.i > 0
    [] u.k = "co"  -> TRUE
    [] u.k = "nm"  -> u.t = "none" \/ (u.t = "str" /\ u.s # "")
    [] u.k = "ex"  -> u.t = "str"
    [] u.k = "tr"  -> u.t = "trig"
    [] u.k = "ar"  -> u.t = "list"
    [] u.k = "kw"  -> u.t = "dict"
    [] u.k = "fn"  -> u.t = "fn"
    [] OTHER -> FALSE
ApplyUpd(t, u) ==
  CASE u.k = "nrt" -> [t EXCEPT !.nrt = u.i]
    [] u.k = "gr"  -> [t EXCEPT !.gr = u.i]
    [] u.k = "mx"  -> [t EXCEPT !.mx = u.i]
    [] u.k = "co"  -> [t EXCEPT !.co = u.i = 1]
    [] u.k = "nm"  -> IF u.t = "none" THEN t ELSE [t EXCEPT !.nm = u.s]
    [] u.k = "ex"  -> [t EXCEPT !.ex = u.s]
    [] u.k = "tr"  -> [t EXCEPT !.tr = u.tr]
    [] u.k = "ar"  -> [t EXCEPT !.ar = u.s]
    [] u.k = "kw"  -> [t EXCEPT !.kw = u.s]
    [] u.k = "fn"  -> [t EXCEPT !.fn = u.s]
RECURSIVE ApplyAll(_, _)
ApplyAll(t, us) == IF us = <<>> THEN t ELSE ApplyAll(ApplyUpd(t, Head(us)), Tail(us))
TouchesCall(us) == \E i \in 1..Len(us) : us[i].k \in {"ar", "kw", "fn"}
TouchesNrt(us) == \E i \in 1..Len(us) : us[i].k = "nrt"

Modified(S, old, new, nrtset) ==
  LET s1 == Write(S, old, new)
      i == PendIdx(S, old.id, old.sa)
      s2 == IF Stopped(S) /\ nrtset THEN [s1 EXCEPT !.pend[i].go = new.nrt # NONE] ELSE s1
      \* runs in progress may see the old or the new arguments and grace time
      s3 == [s2 EXCEPT !.fl = [j \in 1..Len(@) |->
               IF @[j].id = old.id /\ @[j].sa = old.sa
               THEN [@[j] EXCEPT !.grs = @ \cup {new.gr}, !.calls = @ \cup {BodyCall(new)}]
               ELSE @[j]]]
  IN [Same(s3) EXCEPT !.ret = {"task:" \o old.id},
        !.ev = <<TaskEv(S, cMODIFIED, old.id, EvStore(S, old), "None")>>]

XUpdate(S, a) ==
  IF ~Found(S, a.id, a.sa) THEN Refuse(S, {"TaskLookupError"})
  ELSE IF (\E i \in 1..Len(a.up) : ~UpdOk(a.up[i])) \/ (TouchesCall(a.up) /\ ~a.okargs)
  THEN Refuse(S, {"*"})
  ELSE LET t == Lookup(S, a.id, a.sa) IN Modified(S, t, ApplyAll(t, a.up), TouchesNrt(a.up))

XResched(S, a, now) ==
  IF ~Found(S, a.id, a.sa) THEN Refuse(S, {"TaskLookupError"})
  ELSE LET t == Lookup(S, a.id, a.sa)
       IN Modified(S, t, [t EXCEPT !.tr = a.tr, !.nrt = Next(a.tr, NONE, now)], TRUE)

XPauseT(S, a) ==
  IF ~Found(S, a.id, a.sa) THEN Refuse(S, {"TaskLookupError"})
  ELSE LET t == Lookup(S, a.id, a.sa) IN Modified(S, t, [t EXCEPT !.nrt = NONE], TRUE)

Deleted(S, t) ==
  LET s1 == IF Stopped(S) THEN [S EXCEPT !.pend = RemoveAt(@, PendIdx(S, t.id, t.sa))] ELSE Drop(S, t)
  IN [Same(s1) EXCEPT !.ret = {"none"}, !.ev = <<TaskEv(S, cREMOVED, t.id, t.sa, "None")>>]

XResumeT(S, a, now) ==
  IF ~Found(S, a.id, a.sa) THEN Refuse(S, {"TaskLookupError"})
  ELSE LET t == Lookup(S, a.id, a.sa)
           n == Next(t.tr, NONE, now)
       IN IF n = NONE THEN Deleted(S, t) ELSE Modified(S, t, [t EXCEPT !.nrt = n], TRUE)

XDelete(S, a) ==
  IF ~Found(S, a.id, a.sa) THEN Refuse(S, {"TaskLookupError"})
  ELSE Deleted(S, Lookup(S, a.id, a.sa))

XDelAll(S, a) ==
  LET s1 == IF Stopped(S)
            THEN [S EXCEPT !.pend = SelectSeq(@, LAMBDA p : a.sa # "" /\ p.t.sa # a.sa)]
            ELSE [S EXCEPT !.tasks = {t \in @ : a.sa # "" /\ t.sa # a.sa}]
  IN [Same(s1) EXCEPT !.ev = <<SysEv(cALLREM, IF a.sa = "" THEN "None" ELSE a.sa)>>]

(***************************************************************************)
(* Manual run                                                              *)
(***************************************************************************)
XRun(S, a, now, faults) ==
  IF Stopped(S) THEN Refuse(S, {"SchedulerNotRunningError"})
  ELSE IF ~Found(S, a.id, a.sa) THEN Refuse(S, {"TaskLookupError"})
  ELSE LET t == Lookup(S, a.id, a.sa)
           due == Taken(t, now)
           rts == IF due = <<>> THEN <<now>> ELSE due
           cc == LeftOut(t, now)
           n0 == Next(t.tr, rts[Len(rts)], now)
           n == IF n0 # NONE /\ n0 <= now THEN now + 1 ELSE n0
           removed == n = NONE /\ a.rmf
           s1 == IF removed THEN Drop(S, t) ELSE Put(S, [t EXCEPT !.nrt = n])
       IN IF due = <<>> /\ ~a.force THEN [Same(S) EXCEPT !.ret = {"task:" \o a.id}]
          ELSE IF ~HasExec(S, t.ex) THEN Refuse(S, {"KeyError"})
          ELSE IF Inst(S, t) >= t.mx
          THEN [Refuse(S, {"MaximumInstancesError"}) EXCEPT !.ev = <<SubEv(S, cMAX, t, rts, "manual", cc)>>]
          ELSE IF \E f \in faults : f[1] = "exec"
          THEN [Refuse(S, {"FaultError"}) EXCEPT !.hand = <<Hand(t, rts)>>]
          ELSE [Same(s1) EXCEPT
                  !.ret = IF removed THEN {"none"} ELSE {"task:" \o a.id},
                  !.hand = <<Hand(t, rts)>>,
                  !.ev = <<SubEv(S, cSUBMITTED, t, rts, "manual", cc)>>
                         \o (IF removed THEN <<TaskEv(S, cREMOVED, t.id, t.sa, "None")>> ELSE <<>>)]

(***************************************************************************)
(* A round. faults: set of <<at, key>> that really happened in it.         *)
(***************************************************************************)
DueIn(S, sa, now) == {t \in S.tasks : t.sa = sa /\ t.nrt # NONE /\ t.nrt <= now}
SkipStore(sa, faults) == <<"due", sa>> \in faults
DueOf(S, now, faults) ==
  UNION {IF SkipStore(S.sts[i], faults) THEN {} ELSE DueIn(S, S.sts[i], now) : i \in 1..Len(S.sts)}

RECURSIVE TrigKeys(_)
TrigKeys(tr) ==
  (IF tr.k = "list" THEN {tr.fk} ELSE {}) \cup UNION {TrigKeys(tr.parts[i]) : i \in 1..Len(tr.parts)}
TrigFault(t, faults) == \E f \in faults : f[1] = "trig" /\ f[2] \in TrigKeys(t.tr)

RoundTask(X, S, t, now, faults) ==
  LET rts == Taken(t, now)
      cc == LeftOut(t, now)
      n == Next(t.tr, rts[Len(rts)], now)
      adv == [t EXCEPT !.nrt = n]
      full == Inst(S, t) >= t.mx
      exfault == <<"execid", t.id>> \in faults
      delfault == \E f \in faults : f[1] = "del" /\ f[2] = t.id
      updfault == \E f \in faults : f[1] = "upd" /\ f[2] = t.id
      gonefrom(Y) == [Y EXCEPT !.S = Drop(@, t), !.ev = Append(@, TaskEv(S, cREMOVED, t.id, t.sa, "None"))]
      subev == <<SubEv(S, IF full THEN cMAX ELSE cSUBMITTED, t, rts, "scheduled", cc)>>
      \* 1. hand-off or announcement
      X1 == IF full THEN [X EXCEPT !.ev = @ \o subev]
            ELSE IF exfault THEN [X EXCEPT !.hand = Append(@, Hand(t, rts))]
            ELSE [X EXCEPT !.hand = Append(@, Hand(t, rts)), !.ev = @ \o subev]
      \* 2. the schedule moves on
      X2 == IF n = NONE
            THEN IF delfault THEN X1 ELSE gonefrom(X1)
            ELSE IF updfault THEN [X1 EXCEPT !.alt = @ \cup {adv}]
            ELSE [X1 EXCEPT !.S = Put(@, adv)]
  IN IF ~HasExec(S, t.ex) THEN (IF delfault THEN X ELSE gonefrom(X))
     ELSE IF TrigFault(t, faults)
     THEN [X EXCEPT !.alt = @ \cup {adv}, !.may = @ \cup {Key(t)}, !.opt = Append(@, [h |-> Hand(t, rts), e |-> subev])]
     ELSE X2

RECURSIVE RoundAll(_, _, _, _, _)
RoundAll(X, S, ts, now, faults) ==
  IF ts = {} THEN X
  ELSE LET t == CHOOSE u \in ts : TRUE
       IN RoundAll(RoundTask(X, S, t, now, faults), S, ts \ {t}, now, faults)

XRound(S, now, faults) ==
  IF S.st # "running" THEN Same(S)
  ELSE RoundAll(Same(S), S, DueOf(S, now, faults), now, faults)

(***************************************************************************)
(* Stores and executors                                                    *)
(***************************************************************************)
XAddStore(S, a) ==
  IF HasStore(S, a.al) THEN Refuse(S, {"ValueError"})
  ELSE [Same([S EXCEPT !.sts = Append(@, a.al),
                       !.per = IF a.kind = "mem" THEN @ \ {a.al} ELSE @ \cup {a.al}])
        EXCEPT !.ev = <<SysEv(cSTADD, a.al)>>]
XRmStore(S, a) ==
  IF ~HasStore(S, a.al) THEN Refuse(S, {"KeyError"})
  ELSE [Same([S EXCEPT !.sts = SelectSeq(@, LAMBDA x : x # a.al),
                       !.tasks = {t \in @ : t.sa # a.al}])
        EXCEPT !.ev = <<SysEv(cSTREM, a.al)>>]
XAddExec(S, a) ==
  IF HasExec(S, a.al) THEN Refuse(S, {"ValueError"})
  ELSE [Same([S EXCEPT !.exs = Append(@, a.al),
                       !.aio = IF a.kind = "aio" THEN @ \cup {a.al} ELSE @ \ {a.al},
                       !.queued = IF a.kind \in {"man", "thr"} THEN @ \cup {a.al} ELSE @ \ {a.al}])
        EXCEPT !.ev = <<SysEv(cEXADD, a.al)>>]
XRmExec(S, a) ==
  IF ~HasExec(S, a.al) THEN Refuse(S, {"KeyError"})
  ELSE [Same(Cancel([S EXCEPT !.exs = SelectSeq(@, LAMBDA x : x # a.al)],
                    IF a.al \in S.aio THEN {a.al} ELSE {}))
        EXCEPT !.ev = <<SysEv(cEXREM, a.al)>>]

(***************************************************************************)
(* Runs in progress: a batch is one hand-off                               *)
(*   [b, id, sa, ex, rts, pos, t, grs, calls, out, open, freed, gone]            *)
(***************************************************************************)
NewBatch(b, h, t, grs, calls) ==
  [b |-> b, id |-> h.id, sa |-> h.sa, ex |-> h.ex, rts |-> h.rts, pos |-> 1, t |-> t,
   grs |-> grs, calls |-> calls, out |-> <<>>, open |-> FALSE, freed |-> FALSE, gone |-> FALSE]
Late(rt, t, gr) == gr # NONE /\ t - rt > gr
MustMiss(b, i) == b.grs # {} /\ \A gr \in b.grs : Late(b.rts[i], b.t, gr)
MustRun(b, i) == \A gr \in b.grs : ~Late(b.rts[i], b.t, gr)
\* first run which is not certainly missed
RECURSIVE FirstRun(_, _)
FirstRun(b, i) == IF i > Len(b.rts) THEN i ELSE IF MustMiss(b, i) THEN FirstRun(b, i + 1) ELSE i
Missed(rt) == [o |-> "missed", tok |-> "", rt |-> rt]
MissSeq(b, i, j) == [k \in 1..(j - i) |-> Missed(b.rts[i + k - 1])]

=============================================================================
