------------------------------ MODULE RunLogMC ------------------------------
(***************************************************************************)
(* Every order of announcements about two runs of a task and lines that    *)
(* the task writes, with time passing.                                     *)
(***************************************************************************)
EXTENDS RunLog, Json, IOUtils

N == atoi(IOEnv.LEN)
LMax == atoi(IOEnv.MAX)
Op(o) == [task |-> "a", store |-> "s", name |-> "~", call |-> "~", exec |-> "~", ident |-> "~"] @@ o
Sub(rts, full) == Op([op |-> "sub", rts |-> rts, src |-> "scheduled", cc |-> 0, full |-> full])
Exe(rt, st) == Op([op |-> "exe", rt |-> rt, st |-> st, ret |-> "~", ext |-> "~", exm |-> "~", exr |-> "~", tb |-> "~"])
Ops == {Sub(<<"1">>, FALSE), Sub(<<"1">>, TRUE), Sub(<<"1", "2">>, FALSE), Exe("1", "succeeded"), Exe("1", "failed"), Exe("2", "missed"),
        [op |-> "line", run |-> 0], [op |-> "line", run |-> 1], [op |-> "tick"]}

VARIABLES s, L, now, h
vars == <<s, L, now, h>>
Init == s = <<>> /\ L = <<>> /\ now = 0 /\ h = <<>>
Mine(o) == [ts |-> now, lv |-> "INFO", lg |-> "app", msg |-> "work", task |-> "a", run |-> IF o.run = 1 THEN <<"a", "s", "1">> ELSE <<>>]
Next == /\ Len(h) < N
        /\ \E o \in Ops :
             /\ h' = Append(h, o)
             /\ IF o.op = "tick" THEN now' = now + 5000 /\ UNCHANGED <<s, L>>
                ELSE IF o.op = "line" THEN L' = Newest(Append(L, Mine(o)), LMax) /\ UNCHANGED <<s, now>>
                ELSE LET t == Told(s, L, 100, LMax, Parts(o @@ [now |-> now])) IN s' = t.s /\ L' = t.L /\ now' = now
Emit == Len(h') = N => PrintT("SCRIPT " \o ToJson([h |-> h']))

Runs_ == {s[x] : x \in DOMAIN s}
Lim == {1, 2, 200}
Bounded == Len(L) <= LMax /\ \A r \in Runs_, n \in Lim : Len(LogOf(r, L, n)) <= n
\* nothing is shown twice, all own lines come first, and nothing of another task or time
Shown == \A r \in Runs_ : LET g == LogOf(r, L, 200) IN
  /\ \A x, y \in DOMAIN g : x < y => ~(Same4(g[x], g[y]) )
  /\ \A x, y \in DOMAIN g : (x < y /\ g[y].run = Key(r)) => (g[x].run = Key(r) \/ \E z \in 1..x : Same4(g[z], g[y]))
\* a run that is announced has said so, and one that ended says how
Said == \A r \in Runs_ : Len(L) < LMax =>
  /\ \E x \in DOMAIN L : L[x].run = Key(r) /\ L[x].lg # "app"
  /\ r.st = "failed" => \E x \in DOMAIN L : L[x].run = Key(r) /\ L[x].lv = "ERROR"
  /\ r.st \in {"missed", "max_instances"} => \E x \in DOMAIN L : L[x].run = Key(r) /\ L[x].lv = "WARNING"
=============================================================================
