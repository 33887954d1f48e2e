------------------------------- MODULE RingMC -------------------------------
(***************************************************************************)
(* Every sequence of announcements of two sorts, and clearing, on a buffer *)
(* of two; the last two operations also at the same time.                  *)
(***************************************************************************)
EXTENDS Ring, Json, IOUtils

N == atoi(IOEnv.LEN)
Max == atoi(IOEnv.MAX)
Kinds == {"events", "audit", "logs"}

Base == [code |-> 1, at |-> 0, alias |-> "~", task |-> "~", store |-> "~", ident |-> "~", det |-> "", hay |-> "h", action |-> "run",
         status |-> "succeeded", ttype |-> "task", target |-> "~", msg |-> "m", actor |-> "x", level |-> "info", logger |-> "l", run |-> "~", upper |-> "INFO"]
One == [op |-> "add", sort |-> 1] @@ Base
Two == [op |-> "add", sort |-> 2, task |-> "t", code |-> 4096, status |-> "failed", action |-> "pause", level |-> "error", upper |-> "ERROR"] @@ Base
Ops == {One, Two, [op |-> "clear", sort |-> 0]}
Filters(k) == CASE k = "events" -> {[x \in {} |-> ""], [cat |-> "task"], [name |-> "scheduler.started"], [task |-> "t", cat |-> "task"]}
                [] k = "audit" -> {[x \in {} |-> ""], [status |-> "failed"], [action |-> "run"], [status |-> "failed", action |-> "run"]}
                [] k = "logs" -> {[x \in {} |-> ""], [task |-> "t"], [upper |-> "INFO"], [since |-> 0, until |-> 0]}

VARIABLES kind, s, h
vars == <<kind, s, h>>
Init == kind \in Kinds /\ s = <<>> /\ h = <<>>
Num(o, n) == [no |-> n] @@ o
Next == /\ Len(h) < N /\ kind' = kind
        /\ \/ \E o \in Ops : s' \in Run(kind, Max, s, Num(o, Len(h))) /\ h' = Append(h, <<o.sort>>)
           \/ Len(h) = N - 1 /\ \E a, b \in Ops : s' \in Both(kind, Max, s, Num(a, Len(h)), Num(b, Len(h) + 1)) /\ h' = Append(h, <<a.sort, b.sort>>)
Emit == Len(h') = N => PrintT("SCRIPT " \o ToJson([kind |-> kind, h |-> h']))

Bounded == Len(s) <= Max
\* in order (the last two may have come at once), nothing twice, nothing dropped while something older is there
Ordered == \A x \in 1..(Len(s) - 1) : s[x].no < s[x + 1].no \/ Len(h[Len(h)]) = 2
Newest == (\A k \in DOMAIN h : \A x \in DOMAIN h[k] : h[k][x] # 0) =>
  LET total == Len(h) + (IF h # <<>> /\ Len(h[Len(h)]) = 2 THEN 1 ELSE 0) IN
  {s[x].no : x \in DOMAIN s} = {n \in 0..(total - 1) : n >= total - Max} \/ (h # <<>> /\ Len(h[Len(h)]) = 2 /\ Len(s) = Max)
\* a smaller limit gives the beginning of the answer, and each filter takes its part
Prefix == \A q \in Filters(kind), l \in 0..2 :
  LET all == Answer(kind, s, q, 100) some == Answer(kind, s, q, l) IN
  some = SubSeq(all, 1, IF l < Len(all) THEN l ELSE Len(all))
Parts == LET no == [x \in {} |-> ""] IN \A q \in Filters(kind) : \A x \in DOMAIN Answer(kind, s, q, 100) : \E y \in DOMAIN Answer(kind, s, no, 100) :
  Answer(kind, s, no, 100)[y] = Answer(kind, s, q, 100)[x]
=============================================================================
