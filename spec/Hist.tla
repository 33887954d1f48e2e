-------------------------------- MODULE Hist --------------------------------
(***************************************************************************)
(* The run history of the dashboard: one record per run (task, store,      *)
(* scheduled time), kept in the order they were first heard of.  Strings   *)
(* are "~" and times -1 where there is none.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Final == {"succeeded", "failed", "missed", "max_instances"}
None == {"", "~"}
Key(r) == <<r.task, r.store, r.rt>>
At(s, k) == {x \in DOMAIN s : Key(s[x]) = k}
Some(a, b) == IF a \in None THEN b ELSE a
Time(a, b) == IF a # -1 THEN a ELSE b
Newest(s, max) == SubSeq(s, (IF Len(s) > max THEN Len(s) - max ELSE 0) + 1, Len(s))

\* the run o is heard of: it has a record; what is known of its task fills what was not
Heard(s, max, o) ==
  LET at == At(s, Key(o)) IN
  IF at = {}
  THEN Newest(Append(s, [task |-> o.task, store |-> o.store, rt |-> o.rt, name |-> o.name, call |-> o.call, exec |-> o.exec,
                         ident |-> o.ident, cc |-> 0, src |-> "unknown", st |-> "running", sub |-> -1, fin |-> -1,
                         ret |-> "~", ext |-> "~", exm |-> "~", exr |-> "~", tb |-> "~", cre |-> o.now, upd |-> o.now]), max)
  ELSE LET x == CHOOSE x \in at : TRUE IN
       [s EXCEPT ![x] = [@ EXCEPT !.name = Some(@, o.name), !.call = Some(@, o.call), !.exec = Some(@, o.exec), !.ident = Some(@, o.ident)]]

Change(s, o, F(_)) == [x \in DOMAIN s |-> IF Key(s[x]) = Key(o) THEN F(s[x]) ELSE s[x]]
Submitted(s, o) ==
  Change(s, o, LAMBDA r :
    [r EXCEPT !.src = o.src, !.cc = IF o.cc > r.cc THEN o.cc ELSE r.cc,
              !.sub = Time(r.sub, Time(r.fin, o.now)),
              !.st = IF r.st \in Final THEN r.st ELSE (IF o.full THEN "max_instances" ELSE "running"),
              !.fin = IF o.full THEN Time(r.fin, o.now) ELSE r.fin,
              !.upd = o.now])
Ended(s, o) ==
  Change(s, o, LAMBDA r :
    [r EXCEPT !.fin = o.now, !.sub = Time(r.sub, o.now), !.st = o.st, !.ret = o.ret, !.ext = o.ext, !.exm = o.exm,
              !.exr = o.exr, !.tb = o.tb, !.upd = o.now])

\* what is asked
Has(h, n) == \E k \in 1..(Len(h) - Len(n) + 1) : SubSeq(h, k, k + Len(n) - 1) = n
Text(x) == IF x \in None THEN "" ELSE x
When(r) == Time(r.fin, Time(r.sub, Time(r.upd, r.cre)))
Low(low, x) == IF x \in DOMAIN low THEN low[x] ELSE x
Matches(r, q, low) ==
  /\ q.task \in None \/ r.task = q.task
  /\ q.st = "" \/ r.st = q.st
  /\ q.src = "" \/ r.src = q.src
  /\ q.q = "" \/ Has(Low(low, r.task) \o " " \o Low(low, Text(r.name)) \o " " \o Low(low, Text(r.call)) \o " " \o
                     Low(low, Text(r.ident)) \o " " \o (IF r.cc # 0 THEN "coalesced" ELSE "") \o " " \o r.st \o " " \o r.src, q.q)
Answers(s, q, low, res) ==
  LET m == SelectSeq(s, LAMBDA r : Matches(r, q, low))
      all == {m[x] : x \in DOMAIN m}
      given == {res[x] : x \in DOMAIN res} IN
  /\ Len(res) = (IF q.limit <= 0 THEN 0 ELSE IF Len(m) < q.limit THEN Len(m) ELSE q.limit)
  /\ given \subseteq all
  /\ Cardinality({Key(r) : r \in given}) = Len(res)
  /\ \A x \in 1..(Len(res) - 1) : When(res[x]) >= When(res[x + 1])
  /\ Len(res) > 0 => \A r \in all \ given : When(r) <= When(res[Len(res)])
Counts(s) == [k \in {"running"} \cup Final |-> Cardinality({x \in DOMAIN s : s[x].st = k})]

\* what an operation consists of: a run is heard of, then its record is changed
Parts(o) ==
  CASE o.op = "sub" -> [x \in 1..(2 * Len(o.rts)) |->
         LET part == [p |-> IF x % 2 = 1 THEN "heard" ELSE "sub", task |-> o.task, store |-> o.store, rt |-> o.rts[(x + 1) \div 2], name |-> o.name,
                      call |-> o.call, exec |-> o.exec, ident |-> o.ident, now |-> o.now, src |-> o.src, cc |-> o.cc, full |-> o.full] IN part]
    [] o.op = "exe" -> LET part(p) == [p |-> p, task |-> o.task, store |-> o.store, rt |-> o.rt, name |-> o.name, call |-> o.call, exec |-> o.exec,
                                       ident |-> o.ident, now |-> o.now, st |-> o.st, ret |-> o.ret, ext |-> o.ext, exm |-> o.exm,
                                       exr |-> o.exr, tb |-> o.tb] IN <<part("heard"), part("exe")>>
    [] OTHER -> <<[p |-> o.op, o |-> o]>>
\* the states it may lead to: none if the answer is not right
Part(s, max, low, p) ==
  CASE p.p = "heard" -> {Heard(s, max, p)}
    [] p.p = "sub" -> {Submitted(s, p)}
    [] p.p = "exe" -> {Ended(s, p)}
    [] p.p = "clear" -> {<<>>}
    [] p.p = "query" -> IF Answers(s, p.o, low, p.o.res) THEN {s} ELSE {}
    [] p.p = "sum" -> IF p.o.res = [total |-> Len(s)] @@ Counts(s) THEN {s} ELSE {}
    [] p.p = "get" -> IF p.o.res = [x \in 1..Cardinality(At(s, Key(p.o))) |-> s[CHOOSE x0 \in At(s, Key(p.o)) : TRUE]] THEN {s} ELSE {}
RECURSIVE Runs(_, _, _, _, _)
Runs(s, max, low, a, b) ==
  IF a = <<>> /\ b = <<>> THEN {s}
  ELSE (IF a = <<>> THEN {} ELSE UNION {Runs(t, max, low, Tail(a), b) : t \in Part(s, max, low, Head(a))}) \cup
       (IF b = <<>> THEN {} ELSE UNION {Runs(t, max, low, a, Tail(b)) : t \in Part(s, max, low, Head(b))})
=============================================================================
