----------------------------- MODULE SchedTrace -----------------------------
(***************************************************************************)
(* Validation of traces recorded from the real schedulers against Core.    *)
(* Every entry is one call (with everything that observably happened in it)*)
(* or a spontaneous occurrence; the monitor never stops: it names every    *)
(* clause that fails, adopts the observed state and goes on.               *)
(***************************************************************************)
EXTENDS Core, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, S, bad
vars == <<i, S, bad>>

V(cl, props, d) == [cl |-> cl, props |-> props, d |-> ToString(d)]
If(b, v) == IF b THEN <<v>> ELSE <<>>

(***************************************************************************)
(* Which properties a deviation in an operation concerns                   *)
(***************************************************************************)
Life == {"start", "shutdown", "pause", "resume", "setup"}
Edits == {"update", "resched", "pauset", "resumet", "del", "delall"}
Reads == {"query", "preview", "lookup"}
OpProps(e) ==
  CASE e.op = "round" -> {"S01"}
    [] e.op = "start" -> {"S05", "S13"}
    [] e.op = "shutdown" -> {"S05", "S06"}
    [] e.op \in {"pause", "resume", "setup"} -> {"S05"}
    [] e.op = "add" -> {"S13"}
    [] e.op \in Edits -> IF S.st = "stopped" THEN {"S10", "S13"} ELSE {"S10"}
    [] e.op = "run" -> {"S11"}
    [] e.op \in Reads -> {"S12"}
    [] e.op = "probe" -> {"H05"}
    [] e.op = "dash" -> {"H04"}
    [] OTHER -> {"S09"}

(***************************************************************************)
(* Items of an entry: hand-offs, bodies, events, faults                    *)
(***************************************************************************)
P0(s) == [fl |-> s.fl, ev |-> <<>>, hand |-> <<>>, body |-> <<>>, faults |-> {},
          errs |-> FALSE, self |-> <<>>, ns |-> <<>>, chg |-> <<>>, bad |-> <<>>]
BIdx(P, b) == LET s == {k \in 1..Len(P.fl) : P.fl[k].b = b} IN IF s = {} THEN 0 ELSE MinOf(s)

\* not known: whatever was in force while calls ran at the same time
AnyCall == [fn |-> "*", ar |-> "*", kw |-> "*"]
AnyGr == {NONE, 1}
DoHand(P, s, it) ==
  LET ts == {t \in s.tasks : t.id = it.id /\ t.sa = it.sa}
      h == [id |-> it.id, sa |-> it.sa, ex |-> it.ex, rts |-> it.rts]
      nb == NewBatch(it.b, h, NONE,
                     {t.gr : t \in ts}, {BodyCall(t) : t \in ts})
  IN [P EXCEPT !.hand = Append(@, h), !.fl = Append(@, nb)]

DoBody(P, it) ==
  LET k == BIdx(P, it.b)
      call == [fn |-> it.fn, ar |-> it.ar, kw |-> it.kw]
      b == P.fl[k]
      b1 == IF b.t = NONE THEN [b EXCEPT !.t = it.now] ELSE b
      j == FirstRun(b1, b1.pos)
  IN IF it.b = 0 THEN [P EXCEPT !.body = Append(@, call)]
     ELSE IF k = 0 THEN [P EXCEPT !.bad = Append(@, V("body-unknown", {"S07", "S02"}, it))]
     ELSE IF j > Len(b1.rts) \/ b1.open
     THEN [P EXCEPT !.bad = Append(@, V("body-of-missed-run", {"S07"}, <<it, b1>>)),
                    !.fl[k] = [b1 EXCEPT !.open = TRUE]]
     ELSE [P EXCEPT !.fl[k] = [b1 EXCEPT !.out = @ \o MissSeq(b1, b1.pos, j), !.pos = j, !.open = TRUE],
                    !.bad = @ \o If(b1.calls # {} /\ AnyCall \notin b1.calls /\ call \notin b1.calls, V("body-call", {"S07"}, <<it, b1.calls>>))]

DoEnd(P, it) ==
  LET k == BIdx(P, it.b)
      b == P.fl[k]
  IN IF k = 0 THEN P
     ELSE IF it.o = "base" THEN [P EXCEPT !.fl = RemoveAt(@, k), !.errs = TRUE]
     ELSE [P EXCEPT !.fl[k] =
             [b EXCEPT !.out = Append(@, [o |-> it.o, tok |-> it.tok,
                                          rt |-> IF b.pos <= Len(b.rts) THEN b.rts[b.pos] ELSE UNDEF]),
                       !.pos = @ + 1, !.open = FALSE, !.t = it.now],
                    !.errs = @ \/ it.o # "ret"]

\* everything the batch still has to announce, <<>> while it is in progress
FullOut(b) == IF b.open \/ b.t = NONE \/ FirstRun(b, b.pos) <= Len(b.rts) THEN <<>>
              ELSE b.out \o MissSeq(b, b.pos, Len(b.rts) + 1)
OutMatch(o, it) ==
  /\ o.rt = it.rt
  /\ CASE it.c = cEXECUTED -> o.o = "ret" /\ it.val = o.tok /\ it.exc = ""
       [] it.c = cERROR -> o.o = "exc" /\ it.exc = o.tok /\ it.val = ""
       [] it.c = cMISSED -> o.o = "missed" /\ it.val = "" /\ it.exc = ""
\* the grace time was changed while the run was in progress: either may count
LaxB(b) == Cardinality(b.grs) # 1

DoOutcome(P, s, it) ==
  LET ks == {k \in 1..Len(P.fl) : /\ P.fl[k].id = it.id /\ P.fl[k].sa = it.st
                                  /\ FullOut(P.fl[k]) # <<>> /\ OutMatch(Head(FullOut(P.fl[k])), it)}
      lax == {k \in 1..Len(P.fl) : P.fl[k].id = it.id /\ LaxB(P.fl[k]) /\ ~P.fl[k].open /\ P.fl[k].t # NONE /\ it.rt \in Rng(P.fl[k].rts)}
      \* leaves the run times after the announced one
      cut(k) == LET b == P.fl[k]
                    j == MinOf({m \in 1..Len(b.rts) : b.rts[m] = it.rt})
                IN IF j = Len(b.rts) THEN RemoveAt(P.fl, k)
                   ELSE [P.fl EXCEPT ![k] = [b EXCEPT !.rts = SubSeq(@, j + 1, Len(@)), !.pos = 1,
                                                      !.out = <<>>, !.freed = TRUE]]
      any == {k \in 1..Len(P.fl) : P.fl[k].id = it.id /\ ~P.fl[k].open}
      pop(k) == LET b == P.fl[k]
                    f == IF FullOut(b) # <<>> THEN Tail(FullOut(b))
                         ELSE IF b.out # <<>> THEN Tail(b.out) ELSE <<>>
                IN IF f = <<>> THEN RemoveAt(P.fl, k)
                   ELSE [P.fl EXCEPT ![k] = [b EXCEPT !.out = f, !.pos = Len(b.rts) + 1, !.freed = TRUE]]
      P1 == [P EXCEPT !.bad = @ \o If(it.idn # s.cfg.idn, V("outcome-identity", {"S09"}, it))]
  IN IF ks # {} THEN [P1 EXCEPT !.fl = pop(MinOf(ks))]
     ELSE IF lax # {} THEN [P1 EXCEPT !.fl = cut(MinOf(lax))]
     ELSE [P1 EXCEPT !.bad = Append(@, V("outcome", {"S07"} \cup (IF s.st = "stopped" THEN {} ELSE {"S09"}),
                                        <<it, [k \in any |-> P.fl[k]]>>)),
                     !.fl = IF any = {} THEN @ ELSE pop(MinOf(any))]

Proj(it) == Ev(it.c, it.id, it.st, it.al, it.rts, it.src, it.cc, it.idn)

DoItem(P, s, it) ==
  CASE it.k = "hand" -> DoHand(P, s, it)
    [] it.k = "handfail" ->
         LET k == BIdx(P, it.b) IN
         IF k = 0 THEN P ELSE [P EXCEPT !.fl = RemoveAt(@, k), !.faults = @ \cup {<<"execid", P.fl[k].id>>}]
    [] it.k = "begin" ->
         LET k == BIdx(P, it.b) IN IF k = 0 THEN P ELSE [P EXCEPT !.fl[k].t = it.now]
    [] it.k = "body" -> DoBody(P, it)
    [] it.k = "end" -> DoEnd(P, it)
    [] it.k = "lchg" -> [P EXCEPT !.chg = Append(@, it)]
    [] it.k = "ev" -> LET Q == [P EXCEPT !.ns = Append(@, [n |-> it.n, c |-> it.c])] IN
         IF it.c \in Outcomes THEN DoOutcome(Q, s, it) ELSE [Q EXCEPT !.ev = Append(@, Proj(it))]
    [] it.k = "fault" -> [P EXCEPT !.faults = @ \cup {<<IF it.at = "lock" THEN "due" ELSE it.at, it.key>>}, !.errs = TRUE]
    [] it.k = "cancel" -> LET k == BIdx(P, it.b) IN IF k = 0 THEN P ELSE [P EXCEPT !.fl = RemoveAt(@, k)]
    [] it.k = "self" ->
         \* the body of a run tried to run its own task
         LET busy == Cardinality({k \in 1..Len(P.fl) : P.fl[k].id = it.id /\ ~P.fl[k].freed})
             ts == {t \in s.tasks : t.id = it.id}
             want == \E t \in ts : busy >= t.mx
         IN [P EXCEPT !.self = IF it.exc = "MaximumInstancesError" THEN Append(@, it.id) ELSE @,
                      !.bad = @ \o If((it.exc = "MaximumInstancesError") # want,
                                      V("self-run-limit", {"S03"}, it))]
RECURSIVE Items(_, _, _)
Items(P, s, its) == IF its = <<>> THEN P ELSE Items(DoItem(P, s, Head(its)), s, Tail(its))

(***************************************************************************)
(* The dashboard: an action on several tasks is that many calls, and each  *)
(* of them is told in the audit trail                                      *)
(***************************************************************************)
DashFaults(s, id, faults) ==
  LET ex == IF Found(s, id, "") THEN Lookup(s, id, "").ex ELSE "" IN
  {f \in faults : f[1] = "look" \/ (f[1] \in {"upd", "del"} /\ f[2] = id) \/ (f[1] = "exec" /\ f[2] = ex)}
DashCall(s, act, id, now, faults) ==
  LET c == [id |-> id, sa |-> "", force |-> TRUE, rmf |-> FALSE]
      fs == DashFaults(s, id, faults)
  IN IF \E f \in fs : f[1] # "exec" THEN Refuse(s, {"FaultError"})
     ELSE CASE act = "run" -> XRun(s, c, now, fs)
            [] act = "pause" -> XPauseT(s, c)
            [] act = "resume" -> XResumeT(s, c, now)
            [] act = "remove" -> XDelete(s, c)
Told(act, id, x) == [act |-> "task." \o act, id |-> id,
                     st |-> IF x.exc = {"-"} THEN "succeeded" ELSE IF x.exc = {"MaximumInstancesError"} THEN "warning" ELSE "failed"]
RECURSIVE DashAll(_, _, _, _, _)
DashAll(X, act, ids, now, faults) ==
  IF ids = <<>> THEN X
  ELSE LET x == DashCall(X.x.S, act, Head(ids), now, faults)
       IN DashAll([x |-> [X.x EXCEPT !.S = x.S, !.ev = @ \o x.ev, !.hand = @ \o x.hand],
                   aud |-> Append(X.aud, Told(act, Head(ids), x))], act, Tail(ids), now, faults)
DashDo(s, a, now, faults) ==
  LET id == a.ids[1]
      one(x, status) == [x |-> [x EXCEPT !.exc = {"-"}, !.ret = {}], aud |-> <<Told(a.act, id, x)>>, status |-> status]
      none(status) == [x |-> Same(s), aud |-> <<>>, status |-> status]
      t == Lookup(s, id, "")
      u == [id |-> id, sa |-> "", up |-> a.up, okargs |-> a.okargs]
      x == XUpdate(s, u)
  IN CASE a.act = "create" ->
            LET y == IF a.bad THEN Refuse(s, {"*"}) ELSE XAdd(s, a, now) IN
            [x |-> [y EXCEPT !.exc = {"-"}, !.ret = {}], status |-> 200,
             aud |-> <<Told("create", IF y.exc = {"-"} THEN a.id ELSE id, y)>>]
       [] a.act = "update" ->
            IF ~Found(s, id, "") THEN one(x, 404)
            ELSE IF a.bad \/ x.exc # {"-"} THEN one(Refuse(s, {"*"}), 400)
            ELSE IF ~a.apply \/ ApplyAll(t, a.up) = t THEN none(200)
            ELSE IF \E f \in faults : f[1] = "upd" /\ f[2] = id THEN one(Refuse(s, {"FaultError"}), 400)
            ELSE one(x, 200)
       [] OTHER -> [status |-> 200] @@ DashAll([x |-> Same(s), aud |-> <<>>], a.act, a.ids, now, faults)
XDash(s, a, now, faults) == DashDo(s, a, now, faults).x
DashBad(s, e, P) ==
  LET d == DashDo(s, e.a, e.now, P.faults) IN
  If(e.a.aud # d.aud, V("audit", {"H04"}, [want |-> d.aud, got |-> e.a.aud]))
  \o If(e.a.status # d.status, V("answer", {"H04"}, [want |-> d.status, got |-> e.a.status]))

(***************************************************************************)
(* Expectation of an entry                                                 *)
(***************************************************************************)
Expect(s, op, a, now, faults) ==
  CASE op = "start" -> XStart(s, a, now, faults)
    [] op = "shutdown" -> XShutdown(s, a)
    [] op = "pause" -> XPause(s)
    [] op = "resume" -> XResume(s)
    [] op = "setup" -> XSetup(s)
    [] op = "add" -> XAdd(s, a, now)
    [] op = "update" -> XUpdate(s, a)
    [] op = "resched" -> XResched(s, a, now)
    [] op = "pauset" -> XPauseT(s, a)
    [] op = "resumet" -> XResumeT(s, a, now)
    [] op = "del" -> XDelete(s, a)
    [] op = "delall" -> XDelAll(s, a)
    [] op = "run" -> XRun(s, a, now, faults)
    [] op = "round" -> XRound(s, now, faults)
    [] op = "addstore" -> XAddStore(s, a)
    [] op = "rmstore" -> XRmStore(s, a)
    [] op = "addexec" -> XAddExec(s, a)
    [] op = "rmexec" -> XRmExec(s, a)
    [] op = "fin" -> [Same(s) EXCEPT !.S.fl = SelectSeq(@, LAMBDA b : b.b # a.b)]
    [] op = "dash" -> XDash(s, a, now, faults)
    [] OTHER -> Same(s)

(***************************************************************************)
(* Comparison with what was observed                                       *)
(***************************************************************************)
Bare(t) == [id |-> t.id, sa |-> t.sa, nrt |-> t.nrt, tr |-> t.tr, ex |-> t.ex, co |-> t.co,
            mx |-> t.mx, gr |-> t.gr, nm |-> t.nm, fn |-> t.fn, ar |-> t.ar, kw |-> t.kw]
ObsTasks(e) == {Bare(e.post.tasks[k]) : k \in 1..Len(e.post.tasks)}
ExcOk(x, exc) == exc \in x.exc \/ ("*" \in x.exc /\ exc # "-")
\* errors keep their type on the way from a remote scheduler if the protocol knows them
Kept == {"-", "*", "TaskLookupError", "SchedulerNotRunningError", "MaximumInstancesError", "ValueError"}
ByRemote == {"add", "update", "pauset", "resumet", "del", "run", "query", "preview", "lookup"}
Wired(s, e, x) == IF s.cfg.via = "remote" /\ e.op \in ByRemote
                  THEN [x EXCEPT !.exc = {IF n \in Kept THEN n ELSE "RemoteSchedulerError" : n \in @}] ELSE x
RetOk(x, ret) == x.ret = {} \/ ret \in x.ret
\* read faults hit an API call itself: it fails and has no effect
ReadFault(fs) == \E f \in fs : f[1] \in {"look", "all", "add", "upd", "del", "trig"}

TasksBad(x, e, props) ==
  LET T == x.S.tasks
      O == ObsTasks(e)
      keys == Keys(T) \cup Keys(O)
      wrong == {k \in keys :
         LET ts == {t \in T : Key(t) = k}
             os == {t \in O : Key(t) = k}
         IN ~ \/ ts = os
              \/ os = {} /\ k \in x.may
              \/ os # {} /\ os \subseteq (x.alt \cup ts)}
  IN IF wrong = {} /\ Len(e.post.tasks) = Cardinality(O) THEN <<>>
     ELSE <<V("tasks", props, [keys |-> wrong, want |-> {t \in T : Key(t) \in wrong},
                               got |-> {t \in O : Key(t) \in wrong}, n |-> Len(e.post.tasks)])>>

\* hand-offs: classify every difference
HandsBad(x, P, e) ==
  LET extra == BagMinus(P.hand, x.hand)
      lack == BagMinus(x.hand, P.hand)
      opts == [k \in 1..Len(x.opt) |-> x.opt[k].h]
      extra2 == BagMinus(extra, opts)
      due(h) == \E t \in S.tasks : Key(t) = <<h.sa, h.id>> /\ t.nrt # NONE /\ t.nrt <= e.now
      refused(h) == \E k \in 1..Len(P.ev) : P.ev[k].c = cMAX /\ P.ev[k].id = h.id
      full(h) == \E t \in S.tasks : Key(t) = <<h.sa, h.id>> /\ Inst(S, t) >= t.mx
      base == OpProps(e)
      shut(h) == \E t \in S.tasks : Key(t) = <<h.sa, h.id>> /\ t.tr.k = "shut"
      eprops(h) == IF shut(h) /\ e.op = "round" THEN {"S06", "S02", "S01"}
                   ELSE IF e.op \notin {"round", "run"} THEN {"S02"} \cup base
                   ELSE IF full(h) THEN base \cup {"S03"}
                   ELSE IF e.op = "round" /\ (S.st # "running" \/ ~due(h)) THEN {"S02", "S01"}
                   ELSE IF e.op = "round" /\ (\E k \in 1..Len(h.rts) : h.rts[k] > e.now) THEN {"S02", "S01"}
                   ELSE base
      lprops(h) == base \cup (IF refused(h) THEN {"S03"} ELSE {}) \cup (IF P.errs THEN {"S08"} ELSE {})
  IN [k \in 1..Len(extra2) |-> V("handed-unexpectedly", eprops(extra2[k]), [got |-> extra2[k], want |-> x.hand])]
     \o [k \in 1..Len(lack) |-> V("not-handed", lprops(lack[k]), [want |-> lack[k], got |-> P.hand])]

EvBad(x, P, e, props) ==
  LET self == [k \in 1..Len(P.self) |-> P.self[k]]
      got == SelectSeq(P.ev, LAMBDA v : ~(v.c = cMAX /\ v.src = "manual" /\ P.self # <<>>))
      extra == BagMinus(got, x.ev)
      lack == BagMinus(x.ev, got)
      optev == UNION {Rng(x.opt[k].e) : k \in 1..Len(x.opt)}
                 \cup {TaskEv(S, cREMOVED, k[2], k[1], "None") : k \in x.may}
      extra2 == SelectSeq(extra, LAMBDA v : v \notin optev)
      lim == IF \E v \in Rng(extra2) \cup Rng(lack) : v.c = cMAX THEN {"S03"} ELSE {}
  IN IF extra2 = <<>> /\ lack = <<>> THEN <<>>
     ELSE <<V("events", props \cup {"S09"} \cup lim, [extra |-> extra2, missing |-> lack])>>

\* listeners: the same events, once, in order, filtered by mask
\* A listener may be added or removed by another one during an event: that event it may get or not.
LisAfter(lis, chg) ==
  LET RECURSIVE F(_, _)
      F(l, c) == IF c = <<>> THEN l
                 ELSE F(IF Head(c).act = "rm" THEN SelectSeq(l, LAMBDA r : r.l # Head(c).l)
                        ELSE Append(l, [l |-> Head(c).l, mask |-> Head(c).mask, beh |-> "ok"]), Tail(c))
  IN F(lis, chg)
LisBad(s, P, e) ==
  LET got(l) == LET c == {k \in 1..Len(e.lev) : e.lev[k].l = l}
                IN IF c = {} THEN <<>> ELSE e.lev[MinOf(c)].s
      added == LisAfter(<<>>, SelectSeq(P.chg, LAMBDA c : c.act = "add"))
      all == s.lis \o added
      from(r) == LET c == {k \in DOMAIN P.chg : P.chg[k].l = r.l /\ P.chg[k].act = "add"}
                 IN IF c = {} THEN -1 ELSE P.chg[MinOf(c)].n
      upto(r) == LET c == {k \in DOMAIN P.chg : P.chg[k].l = r.l /\ P.chg[k].act = "rm"}
                 IN IF c = {} THEN INF ELSE P.chg[MinOf(c)].n
      take(r, edge) == LET f == SelectSeq(P.ns, LAMBDA n : Bit(r.mask, n.c) /\ (edge \/ (n.n > from(r) /\ n.n < upto(r)))
                                                           /\ n.n >= from(r) /\ n.n <= upto(r))
                       IN [k \in 1..Len(f) |-> f[k].n]
      ok(r) == LET g == got(r.l) must == take(r, FALSE) IN
               /\ SelectSeq(g, LAMBDA n : n \notin {from(r), upto(r)}) = must
               /\ \E f \in {take(r, TRUE)} : \A k \in 1..Len(g) : CountIn(f, g[k]) = 1 /\ CountIn(g, g[k]) = 1
               /\ \A j, k \in 1..Len(g) : j < k => g[j] < g[k]
      known == {all[k].l : k \in 1..Len(all)}
      b1 == {k \in 1..Len(all) : ~ok(all[k])}
      b2 == {k \in 1..Len(e.lev) : e.lev[k].l \notin known}
      failing == \E k \in 1..Len(s.lis) : s.lis[k].beh \in {"err", "base"}
  IN IF b1 = {} /\ b2 = {} THEN <<>>
     ELSE <<V("listeners", {"S09"} \cup (IF failing THEN {"S08"} ELSE {}),
              [lis |-> [k \in b1 |-> <<all[k], take(all[k], FALSE), got(all[k].l)>>], unknown |-> b2])>>

\* inspection agrees with the tasks
InfoOf(t, stopped) ==
  [id |-> t.id, sa |-> t.sa, nrt |-> t.nrt, ex |-> t.ex, co |-> t.co, mx |-> t.mx, gr |-> t.gr,
   nm |-> t.nm, fn |-> t.fn, ar |-> t.ar, kw |-> t.kw,
   ss |-> IF stopped THEN "pending" ELSE IF t.nrt = NONE THEN "paused" ELSE "scheduled",
   pe |-> stopped, pa |-> ~stopped /\ t.nrt = NONE, su |-> TRUE,
   ta |-> CASE t.tr.k = "int" -> "interval" [] t.tr.k = "list" -> "hlist" [] t.tr.k = "shut" -> "shutdown"
            [] OTHER -> t.tr.k]
InfoBad(x, e) ==
  LET stopped == e.post.st = "stopped"
      want == [k \in 1..Len(e.post.tasks) |-> InfoOf(Bare(e.post.tasks[k]), stopped)]
      n == Len(e.post.tasks)
      nn == Cardinality({k \in 1..n : e.post.tasks[k].nrt = NONE})
      cnt == IF stopped THEN <<n, 0, 0, n>> ELSE <<n, n - nn, nn, 0>>
  IN If(~BagEq(want, e.post.infos), V("snapshots", {"S12"}, [want |-> want, got |-> e.post.infos]))
     \o If(cnt # <<e.post.cnt[1], e.post.cnt[2], e.post.cnt[3], e.post.cnt[4]>>,
           V("counts", {"S12"}, [want |-> cnt, got |-> e.post.cnt]))
     \o If(Rng(e.post.sts) # Rng(x.S.sts) \/ Rng(e.post.exs) # Rng(x.S.exs),
           V("aliases", {"S12", "S09"}, [got |-> <<e.post.sts, e.post.exs>>, want |-> <<x.S.sts, x.S.exs>>]))
     \o If(~e.post.run \/ e.post.sat # x.S.sat, V("started-at", {"S12", "S05"}, <<e.post.sat, x.S.sat>>))

\* pending tasks: order and content
PendBad(x, e, props) ==
  LET want == [k \in 1..Len(x.S.pend) |-> x.S.pend[k].t]
      got == [k \in 1..Len(e.post.tasks) |-> Bare(e.post.tasks[k])]
  IN IF BagEq(want, got) THEN <<>> ELSE <<V("pending-tasks", props, [want |-> want, got |-> got])>>

(***************************************************************************)
(* Sleeping                                                                *)
(***************************************************************************)
\* stores which could not be read or written: they are looked at again within the retry interval
Excused(fs) ==
  LET hit(u) == TrigFault(u, fs) \/ (\E f \in fs : f[1] \in {"upd", "del"} /\ f[2] = u.id)
  IN {f[2] : f \in {g \in fs : g[1] \in {"due", "next"}}} \cup {t.sa : t \in {u \in S.tasks : hit(u)}}
WaitBad(e, P, st) ==
  LET all == {t \in ObsTasks(e) : t.nrt # NONE}
      ex == Excused(P.faults)
      first(T) == IF T = {} THEN INF ELSE Max2(e.tend, MinOf({t.nrt : t \in T}))
      a == first({t \in all : t.sa \notin ex})
      b == IF ex = {} THEN INF ELSE Max2(e.tend, e.now + S.cfg.retry)
      \* a failing task stays due
      limit == Min2(a, IF b = INF THEN INF
                       ELSE IF (\E f \in P.faults : f[1] \in {"due", "next"}) \/ first(all \ {t \in all : t.sa \notin ex}) <= e.tend
                       THEN b ELSE first({t \in all : t.sa \in ex}))
      props == {"S04"} \cup (IF P.errs THEN {"S08"} ELSE {})
  IN IF S.st # "running" \/ st # "running" \/ e.exc # "-" THEN <<>>
     ELSE IF e.wait = NONE
     THEN If(all # {} \/ ex # {} \/ S.cfg.lock, V("wait-none", props, [tasks |-> all, faults |-> P.faults]))
     ELSE If(e.wait < 0 \/ e.wait > limit - e.tend, V("wait-too-long", props, [wait |-> e.wait, limit |-> limit]))

(***************************************************************************)
(* The scheduler looks again in time: armed is when it will (at the latest)*)
(***************************************************************************)
MinNrt(T) == LET ns == {t.nrt : t \in T} \ {NONE} IN IF ns = {} THEN INF ELSE MinOf(ns)
ArmedAfter(e) ==
  LET a1 == IF e.op = "round" THEN (IF e.wait = NONE \/ e.exc # "-" THEN INF
                                    ELSE IF e.wait > INF - e.tend THEN INF ELSE e.tend + e.wait)
            ELSE S.armed
  IN IF e.woke > 0 THEN Min2(a1, e.tend) ELSE a1
SlackAfter(e, P) == IF e.op = "round" /\ P.faults # {} THEN e.now + S.cfg.retry
                    ELSE IF e.op = "round" THEN NONE ELSE S.slack
ArmedBad(e, P) ==
  LET nrt == MinNrt(ObsTasks(e))
      limit == Max2(Max2(e.tend, nrt), SlackAfter(e, P))
  IN IF ~S.cfg.man \/ e.post.st # "running" \/ nrt = INF \/ e.op = "round" THEN <<>>
     ELSE If(ArmedAfter(e) > limit,
             V("does-not-look-again", {"S04"}, [armed |-> ArmedAfter(e), nrt |-> nrt]))

(***************************************************************************)
(* Inspection calls                                                        *)
(***************************************************************************)
SortKey(k, f) ==
  CASE f = "id" -> <<k.kid>> [] f = "name" -> <<k.knm>> [] f = "executor" -> <<k.kex>>
    [] f = "store" -> <<k.kst>> [] f = "schedule_state" -> <<k.kss>> [] f = "trigger" -> <<k.ktg>>
    [] f = "next_run_time" -> <<IF k.nrt = NONE THEN INF ELSE k.nrt>>
QueryBad(a) ==
  LET match(k) == /\ a.sa \in {"", k.sa} /\ a.ss \in {"", k.ss} /\ a.ex \in {"", k.ex}
                  /\ (a.tg = "" \/ \E j \in 1..Len(k.tg) : k.tg[j] = a.tgl)
                  /\ k.hit
      want == SelectSeq(a.all, match)
      ids(s) == [j \in 1..Len(s) |-> <<s[j].sa, s[j].id>>]
      rec(r) == CHOOSE k \in Rng(a.all) : k.id = r.id /\ k.sa = r.sa
      ord(x, y) == IF a.desc THEN x[1] >= y[1] ELSE x[1] <= y[1]
      f == IF a.sort = "" THEN "next_run_time" ELSE a.sort
  IN IF ~BagEq(ids(want), ids(a.res)) THEN <<V("query-result", {"S12"}, [want |-> ids(want), got |-> ids(a.res)])>>
     ELSE If(\E j \in 1..(Len(a.res) - 1) :
               ~ord(SortKey(rec(a.res[j]), f), SortKey(rec(a.res[j + 1]), f)),
             V("query-order", {"S12"}, [sort |-> f, desc |-> a.desc, got |-> ids(a.res)]))

RECURSIVE PreviewTimes(_, _, _)
PreviewTimes(tr, n, k) == IF n = NONE \/ k = 0 THEN <<>>
                          ELSE <<n>> \o PreviewTimes(tr, Next(tr, n, n), k - 1)
ReadBad(e) ==
  LET a == e.a
      found == Found(S, a.id, a.sa)
      t == Lookup(S, a.id, a.sa)
      at == IF a.now = NONE THEN e.now ELSE a.now
      first == IF t.nrt # NONE THEN t.nrt ELSE Next(t.tr, NONE, at)
      all == PreviewTimes(t.tr, first, a.n + 1)
      want == SubSeq(all, 1, Min2(a.n, Len(all)))
  IN CASE e.op = "query" ->
            IF a.bad THEN If(e.exc = "-", V("query-accepted", {"S12"}, a))
            ELSE IF e.exc # "-" THEN <<V("query-failed", {"S12"}, e.exc)>> ELSE QueryBad(a)
       [] e.op = "preview" ->
            IF a.n < 1 \/ a.n > 50 THEN If(e.exc # "ValueError", V("preview-count", {"S12"}, e))
            ELSE IF ~found THEN If(e.exc # "-" \/ e.ret # "none", V("preview-unknown", {"S12"}, e))
            ELSE If(e.exc # "-" \/ e.ret # a.id \/ a.res # want \/ a.exh # (Len(all) <= a.n) \/ a.cntr # a.n,
                    V("preview", {"S12"}, [want |-> want, got |-> a.res, exh |-> a.exh, exc |-> e.exc]))
       [] e.op = "lookup" ->
            LET w == IF found THEN a.id \o "@" \o t.sa ELSE "none"
            IN If(e.exc # "-" \/ e.ret # w, V("lookup", {"S12"}, [want |-> w, got |-> e.ret, exc |-> e.exc]))
       [] e.op = "probe" ->
            \* without the token every request is refused, and nothing is told
            If(\E k \in 1..Len(a.res) : a.res[k].status # 401 \/ a.res[k].data, V("token", {"H05"}, a))
       [] OTHER -> <<>>

(***************************************************************************)
(* One entry                                                               *)
(***************************************************************************)
Plain == {"adv", "quiet", "par"}
ApiFault(e, fs) == e.op \in Edits \cup {"add", "run"} /\ ReadFault(fs)
Want(e, P) == Wired(S, e, IF ApiFault(e, P.faults) THEN Refuse(S, {"FaultError"})
                          ELSE Expect(S, e.op, e.a, e.now, P.faults))

Failing(P) == P.errs \/ \E k \in 1..Len(S.lis) : S.lis[k].beh \in {"err", "base"}
Bodies(x) == [k \in 1..Len(x.body) |-> x.body[k][2]]
LimitBad(P) ==
  LET over == {k \in 1..Len(P.hand) : \E t \in S.tasks : Key(t) = <<P.hand[k].sa, P.hand[k].id>> /\ Inst(S, t) >= t.mx}
  IN If(over # {}, V("limit-exceeded", {"S03"}, [k \in over |-> P.hand[k]]))
ShutKeys(x, e) == {t \in x.S.tasks \cup S.tasks \cup ObsTasks(e) : t.tr.k = "shut"}

OpBad(e, x, P) ==
  LET props == OpProps(e) \cup (IF Failing(P) THEN {"S08"} ELSE {})
      cprops == props \cup (IF "MaximumInstancesError" \in x.exc \cup {e.exc} THEN {"S03"} ELSE {})
      tprops == props \cup (IF e.op = "start" /\ ShutKeys(x, e) # {} THEN {"S06"} ELSE {})
      xs == [x EXCEPT !.S.tasks = x.S.tasks]
  IN If(e.op \notin Reads /\ ~ExcOk(x, e.exc), V("refusal", cprops \cup (IF e.op = "round" THEN {"S04"} ELSE {}),
                            [want |-> x.exc, got |-> e.exc]))
     \o If(ExcOk(x, e.exc) /\ e.exc = "-" /\ e.op \notin {"round"} /\ ~RetOk(x, e.ret),
           V("result", cprops, [want |-> x.ret, got |-> e.ret]))
     \o If(~BagEq(P.body, Bodies(x)), V("shutdown-tasks", {"S06"} \cup (IF Failing(P) THEN {"S08"} ELSE {}),
                                        [want |-> Bodies(x), got |-> P.body]))
     \o If(e.post.st # x.S.st, V("state", {"S05"} \cup props, [want |-> x.S.st, got |-> e.post.st]))
     \o HandsBad(x, P, e) \o LimitBad(P)
     \o (IF x.lax THEN <<>> ELSE EvBad(x, P, e, props))
     \o LisBad(S, P, e)
     \o (IF x.lax \/ e.post.st # x.S.st THEN <<>>
         ELSE IF e.post.st = "stopped" THEN PendBad(x, e, IF e.op \in Reads THEN {"S12"} ELSE props \cup {"S13"})
         ELSE TasksBad(x, e, IF e.op \in {"async", "begin", "addlis", "rmlis", "addexec", "rmexec"} THEN props \cup {"S01"} ELSE tprops))
     \o InfoBad(x, e)
     \o (IF e.op = "round" THEN WaitBad(e, P, e.post.st) ELSE <<>>)
     \o ArmedBad(e, P)
     \o ReadBad(e)
     \o (IF e.op = "dash" THEN DashBad(S, e, P) ELSE <<>>)

\* the loop slept from now to a.to, and nothing happened in between
SleepBad(e) ==
  LET n == MinNrt(S.tasks) IN
  IF e.a.kind # "sleep" \/ S.st # "running" THEN <<>>
  ELSE If(n < e.a.to /\ e.a.to > S.slack, V("overslept", {"S04"}, [nrt |-> n, slept |-> e.a.to]))
\* nothing is running any more, except open bodies and runs nobody started yet
QuietBad(e) ==
  LET left == SelectSeq(S.fl, LAMBDA b : ~b.open /\ ~(b.t = NONE /\ (b.ex \in S.queued \/ b.gone)))
  IN If(left # <<>>, V("no-outcome", {"S07", "S03"}, left))

(***************************************************************************)
(* Concurrent calls: some sequential order explains them                   *)
(***************************************************************************)
\* the states in which they may leave the scheduler
\* (and the events they announce; the outcomes of runs apart)
Counts(ts, stopped) ==
  LET n == Len(ts)
      nn == Cardinality({k \in 1..n : ts[k].nrt = NONE})
  IN IF stopped THEN <<n, 0, 0, n>> ELSE <<n, n - nn, nn, 0>>
LookOk(c, s, want, infos, now) ==
  IF want = <<>> THEN c.ret.info = <<>>
  ELSE \E k \in 1..Len(want) :
         LET t == want[k]
             first == IF t.nrt # NONE THEN t.nrt ELSE Next(t.tr, NONE, now)
             all == PreviewTimes(t.tr, first, c.a.n + 1)
         IN /\ c.ret.info = <<infos[k]>>
            /\ c.ret.res = SubSeq(all, 1, Min2(c.a.n, Len(all)))
            /\ c.ret.exh = (Len(all) <= c.a.n)
ParReads == {"peek", "look", "info"}
RECURSIVE SeqEnds(_, _, _, _, _)
SeqEnds(s, cs, left, e, evs) ==
  IF left = {}
  THEN IF s.st = e.post.st /\ IF s.st = "stopped" THEN BagEq([k \in 1..Len(s.pend) |-> s.pend[k].t], [k \in 1..Len(e.post.tasks) |-> Bare(e.post.tasks[k])])
          ELSE s.tasks = ObsTasks(e)
       THEN {[s |-> s, ev |-> evs]} ELSE {}
  ELSE UNION {
         LET c == cs[k]
             x == Expect(s, c.op, c.a, e.now, {})
             skip == c.op = "round" /\ c.hand = <<>> /\ c.wait # NONE /\ c.wait <= s.cfg.retry
             s2 == [x.S EXCEPT !.fl = @ \o [j \in 1..Len(c.hand) |->
                      NewBatch(c.b[j], c.hand[j], NONE,
                        {t.gr : t \in {u \in s.tasks : Key(u) = <<c.hand[j].sa, c.hand[j].id>>}},
                        {BodyCall(t) : t \in {u \in s.tasks : Key(u) = <<c.hand[j].sa, c.hand[j].id>>}})]]
             seen == IF s.st = "stopped" THEN [j \in 1..Len(s.pend) |-> s.pend[j].t] ELSE SetToSeq(s.tasks)
             want == IF c.op \in {"peek", "look"} THEN SelectSeq(seen, LAMBDA t : c.a.id \in {"", t.id} /\ c.a.sa \in {"", t.sa}) ELSE <<>>
             infos == [j \in 1..Len(want) |-> InfoOf(want[j], s.st = "stopped")]
             ok == IF c.op = "peek"
                   THEN c.exc = "-" /\ (IF c.a.id = "" THEN BagEq(infos, c.ret)
                                        ELSE IF infos = <<>> THEN c.ret = <<>>
                                        ELSE Len(c.ret) = 1 /\ c.ret[1] \in Rng(infos))
                   ELSE IF c.op = "look" THEN c.exc = "-" /\ LookOk(c, s, want, infos, e.now)
                   ELSE IF c.op = "info"
                   THEN /\ c.exc = "-" /\ c.ret.st = s.st /\ c.ret.up = (s.st # "stopped") /\ c.ret.sat = s.sat
                        /\ c.ret.cnt = Counts(seen, s.st = "stopped")
                   ELSE
                   /\ ExcOk(x, c.exc)
                   /\ c.exc = "-" /\ c.op # "round" => RetOk(x, c.ret)
                   /\ BagEq(x.hand, c.hand)
         IN (IF ok THEN IF c.op \in ParReads THEN SeqEnds(s, cs, left \ {k}, e, evs)
                        ELSE SeqEnds(s2, cs, left \ {k}, e, evs \o x.ev) ELSE {})
            \cup (IF skip THEN SeqEnds(s, cs, left \ {k}, e, evs) ELSE {})
       : k \in left}
\* when the driver looks again: the waits of concurrent rounds and wake-ups
ParArmed(e) ==
  LET rs == {k \in 1..Len(e.a.calls) : e.a.calls[k].op = "round" /\ e.a.calls[k].exc = "-"}
      ws == {IF e.a.calls[k].wait = NONE \/ e.a.calls[k].wait > INF - e.tend THEN INF ELSE e.tend + e.a.calls[k].wait : k \in rs}
      a1 == IF rs = {} THEN S.armed ELSE MinOf(ws)
  IN IF e.woke > 0 THEN Min2(a1, e.tend) ELSE a1
ParArmedBad(e) ==
  LET nrt == MinNrt(ObsTasks(e)) IN
  IF ~S.cfg.man \/ e.post.st # "running" \/ nrt = INF \/ (\E k \in 1..Len(e.a.calls) : e.a.calls[k].op = "round") THEN <<>>
  ELSE If(ParArmed(e) > Max2(Max2(e.tend, nrt), S.slack),
          V("does-not-look-again", {"S04", "S14"}, [armed |-> ParArmed(e), nrt |-> nrt]))
ParEnds(e) == SeqEnds(S, e.a.calls, 1..Len(e.a.calls), e, <<>>)
ParEv(e) == LET vs == SelectSeq(e.a.ev, LAMBDA v : v.c \notin Outcomes) IN [k \in 1..Len(vs) |-> Proj(vs[k])]
Lifecycle == {"start", "shutdown", "pause", "resume"}
ParBad(e, ends) ==
  LET life == IF \E k \in 1..Len(e.a.calls) : e.a.calls[k].op \in Lifecycle THEN {"S05"} ELSE {} IN
  If(ends = {},
     V("not-serializable", {"S14"} \cup life, [calls |-> e.a.calls, post |-> ObsTasks(e), st |-> e.post.st]))
  \o If(ends # {} /\ ~\E x \in ends : BagEq(x.ev, ParEv(e)),
        V("events-of-concurrent-calls", {"S09", "S14"} \cup life, [got |-> ParEv(e), want |-> {x.ev : x \in ends}, calls |-> e.a.calls]))
  \o ParArmedBad(e)
RECURSIVE ParHands(_, _)
ParHands(s, cs) ==
  IF cs = <<>> THEN s
  ELSE LET c == Head(cs) IN
       ParHands([s EXCEPT !.fl = SelectSeq(@, LAMBDA b : c.op # "fin" \/ b.b # c.a.b) \o [j \in 1..Len(c.hand) |->
                 NewBatch(c.b[j], c.hand[j], NONE, AnyGr, {AnyCall})]], Tail(cs))

(***************************************************************************)
(* The state to go on with: what was observed                              *)
(***************************************************************************)
Flights(e, x, P) ==
  LET f1 == IF e.op \in {"run", "round"} \/ (e.op = "dash" /\ e.a.act = "run") THEN P.fl
            ELSE Expect([S EXCEPT !.fl = P.fl], e.op, e.a, e.now, P.faults).S.fl
  IN IF e.op = "rmexec" /\ e.exc = "-"
     THEN [k \in 1..Len(f1) |-> IF f1[k].ex = e.a.al THEN [f1[k] EXCEPT !.ex = "", !.gone = f1[k].t = NONE] ELSE f1[k]]
     ELSE f1
Resync(e, x, P) ==
  LET up == e.post.st # "stopped"
      obs == [k \in 1..Len(e.post.tasks) |-> Bare(e.post.tasks[k])]
      pend == IF up THEN <<>>
              ELSE IF Len(obs) = Len(x.S.pend) /\ \A k \in 1..Len(obs) : Key(obs[k]) = Key(x.S.pend[k].t)
              THEN [k \in 1..Len(obs) |-> [x.S.pend[k] EXCEPT !.t = obs[k]]]
              ELSE [k \in 1..Len(obs) |-> [t |-> obs[k], rep |-> FALSE, go |-> TRUE]]
      lis == IF e.op = "addlis" THEN Append(S.lis, [l |-> e.a.l, mask |-> e.a.mask, beh |-> e.a.beh])
             ELSE IF e.op = "rmlis" THEN SelectSeq(S.lis, LAMBDA r : r.l # e.a.l) ELSE S.lis
  IN [x.S EXCEPT !.st = e.post.st,
                 !.ref = IF ~up THEN 0 ELSE Max2(1, @),
                 !.tasks = IF up THEN ObsTasks(e) ELSE @,
                 !.pend = pend, !.lis = LisAfter(lis, P.chg),
                 !.sts = IF Rng(@) = Rng(e.post.sts) THEN @ ELSE e.post.sts,
                 !.exs = IF Rng(@) = Rng(e.post.exs) THEN @ ELSE e.post.exs,
                 !.sat = e.post.sat,
                 !.fl = Flights(e, x, P),
                 !.armed = ArmedAfter(e), !.slack = SlackAfter(e, P)]

Initial(e) ==
  LET a == e.a IN
  [cfg |-> [gr |-> a.gr, co |-> a.co, mx |-> a.mx, retry |-> a.retry, lock |-> a.lock,
            delay |-> a.delay, man |-> a.man, idn |-> a.idn, via |-> a.via],
   st |-> "stopped", ref |-> 0, pend |-> <<>>, tasks |-> {}, sts |-> a.sts, exs |-> a.exs, fl |-> <<>>,
   per |-> Rng(a.per), aio |-> Rng(a.aio), queued |-> Rng(a.queued), sat |-> NONE, lis |-> <<>>,
   armed |-> INF, slack |-> NONE]

Report(bs, e) == \A k \in 1..Len(bs) :
  PrintT("BAD " \o ToJson([n |-> i, seg |-> e.seg, op |-> e.op, cl |-> bs[k].cl, props |-> SetToSeq(bs[k].props), d |-> bs[k].d]))

Init == i = 1 /\ S = Initial(Log[1]) /\ bad = 0
Step ==
  LET e == Log[i] IN
  /\ i <= Len(Log)
  /\ i' = i + 1
  /\ IF e.op = "reset" THEN S' = Initial(e) /\ bad' = bad
     ELSE IF e.op = "adv"
     THEN LET b == SleepBad(e) IN /\ Report(b, e) /\ bad' = bad + Len(b) /\ S' = S
     ELSE IF e.op = "quiet"
     THEN LET b == QuietBad(e) IN
          /\ Report(b, e) /\ bad' = bad + Len(b)
          /\ S' = [S EXCEPT !.fl = SelectSeq(@, LAMBDA q : q.open \/ (q.t = NONE /\ (q.ex \in S.queued \/ q.gone)))]
     ELSE IF e.op = "par"
     THEN LET ends == ParEnds(e)
              b == ParBad(e, ends) IN
          /\ Report(b, e) /\ bad' = bad + Len(b)
          /\ LET ids == {e.a.calls[k].a.id : k \in {j \in 1..Len(e.a.calls) : e.a.calls[j].op \notin {"round"} \cup ParReads \cup Lifecycle}}
                 s1 == ParHands(IF ends = {} THEN S ELSE [(CHOOSE x \in ends : TRUE).s EXCEPT !.fl = S.fl], e.a.calls)
                 \* runs in progress may see old and new arguments
                 fl == [k \in 1..Len(s1.fl) |-> IF s1.fl[k].id \in ids THEN [s1.fl[k] EXCEPT !.grs = AnyGr, !.calls = {AnyCall}] ELSE s1.fl[k]]
                 after == [s1 EXCEPT !.fl = fl]
             IN S' = [Resync([e EXCEPT !.op = "async"], Same(after), [P0(after) EXCEPT !.fl = fl, !.chg = e.a.chg])
                      EXCEPT !.armed = ParArmed(e)]
     ELSE LET P == Items(P0(S), S, e.items)
              x == Want(e, P)
              b == OpBad(e, x, P) \o P.bad
          IN /\ Report(b, e) /\ bad' = bad + Len(b)
             /\ S' = Resync(e, x, P)
Done == i = Len(Log) + 1 /\ PrintT("DONE " \o ToString(bad)) /\ i' = i + 1 /\ UNCHANGED <<S, bad>>
Next_ == Step \/ Done
=============================================================================
