------------------------------- MODULE RunLog -------------------------------
(***************************************************************************)
(* The log of a run. Every step of a run that is announced adds a line     *)
(* which carries the run; what is shown of a run are its own lines, then   *)
(* the lines of its task around it, each once, each part newest first.     *)
(* A line: ts, lv, lg, msg, task ("~" if none), run (its key; <<>> if none) *)
(***************************************************************************)
EXTENDS Hist

Around == 5000
Label(r) == IF r.name \in None THEN r.task ELSE r.name
Step1(r, now, lv, msg) == [ts |-> now, lv |-> lv, lg |-> "asyncz.dashboard.history", msg |-> msg, task |-> r.task, run |-> Key(r)]
Rec(s, k) == s[CHOOSE x \in At(s, k) : TRUE]

\* r: the record before (its outcome may be known), then: after it
SubLine(r, then, p) ==
  IF p.full THEN <<Step1(then, p.now, "WARNING", "Task run skipped: maximum instances reached for " \o Label(then) \o ".")>>
  ELSE IF r.st \in Final THEN <<>>
  ELSE <<Step1(then, p.now, "INFO", "Task run submitted for " \o Label(then) \o ".")>>
Why(r) == IF r.exm \notin None THEN r.exm ELSE IF r.exr \notin None THEN r.exr ELSE "unknown error"
ExeLine(r, p) ==
  IF p.st = "succeeded" THEN <<Step1(r, p.now, "INFO", "Task run succeeded for " \o Label(r) \o ".")>>
  ELSE IF p.st = "missed" THEN <<Step1(r, p.now, "WARNING", "Task run missed for " \o Label(r) \o ".")>>
  ELSE <<Step1(r, p.now, "ERROR", "Task run failed for " \o Label(r) \o ": " \o Why(r) \o ".")>>

\* the parts of an announcement, one after the other
RECURSIVE Told(_, _, _, _, _)
Told(s, L, hmax, lmax, ps) ==
  IF ps = <<>> THEN [s |-> s, L |-> L]
  ELSE LET p == Head(ps) IN
       IF p.p = "heard" THEN Told(Heard(s, hmax, p), L, hmax, lmax, Tail(ps))
       ELSE LET t == IF p.p = "sub" THEN Submitted(s, p) ELSE Ended(s, p)
                l == IF p.p = "sub" THEN SubLine(Rec(s, Key(p)), Rec(t, Key(p)), p) ELSE ExeLine(Rec(t, Key(p)), p)
            IN Told(t, Newest(L \o l, lmax), hmax, lmax, Tail(ps))

Back(L) == [x \in DOMAIN L |-> L[Len(L) + 1 - x]]
First(L, n) == SubSeq(L, 1, IF n < 0 THEN 0 ELSE IF n < Len(L) THEN n ELSE Len(L))
Same4(a, b) == a.ts = b.ts /\ a.lv = b.lv /\ a.lg = b.lg /\ a.msg = b.msg
RECURSIVE Once(_, _)
Once(L, seen) == IF L = <<>> THEN seen ELSE Once(Tail(L), IF \E x \in DOMAIN seen : Same4(seen[x], Head(L)) THEN seen ELSE Append(seen, Head(L)))
LogOf(r, L, limit) ==
  LET own == SelectSeq(Back(L), LAMBDA l : l.run = Key(r))
      from == Time(r.sub, Time(r.fin, r.cre)) - Around
      to == Time(r.fin, r.upd) + Around
      near == SelectSeq(Back(L), LAMBDA l : l.task = r.task /\ l.ts >= from /\ l.ts <= to)
  IN IF limit <= 0 THEN <<>> ELSE IF Len(own) >= limit THEN First(own, limit) ELSE First(Once(own \o First(near, limit), <<>>), limit)
=============================================================================
