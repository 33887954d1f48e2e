------------------------------- MODULE HistMC -------------------------------
(***************************************************************************)
(* Every order of announcements about three runs (a single one or two at   *)
(* once), and what the history makes of it.                                *)
(***************************************************************************)
EXTENDS Hist, Json, IOUtils

N == atoi(IOEnv.LEN)
Max == atoi(IOEnv.MAX)
Par == IOEnv.PAR = "1"

Op(o) == [task |-> "a", store |-> "s", name |-> "~", call |-> "~", exec |-> "~", ident |-> "~"] @@ o
Sub(rts, full) == Op([op |-> "sub", rts |-> rts, src |-> "scheduled", cc |-> 0, full |-> full])
Exe(rt, st) == Op([op |-> "exe", rt |-> rt, st |-> st, ret |-> "~", ext |-> "~", exm |-> "~", exr |-> "~", tb |-> "~"])
Ops == {Sub(<<"1">>, FALSE), Sub(<<"1">>, TRUE), Sub(<<"1", "2">>, FALSE), Sub(<<"3">>, FALSE),
        Exe("1", "succeeded"), Exe("1", "failed"), Exe("2", "missed"), Exe("3", "succeeded"), [op |-> "clear"]}

VARIABLES s, h, ended, last
vars == <<s, h, ended, last>>
Init == s = <<>> /\ h = <<>> /\ ended = {} /\ last = <<>>

Run(o, now) == Parts(IF o.op = "clear" THEN o ELSE o @@ [now |-> now])
Single == \E o \in Ops : /\ s' \in Runs(s, Max, <<>>, Run(o, Len(h)), <<>>)
                         /\ h' = Append(h, <<o>>)
Double == \E a, b \in Ops : /\ s' \in Runs(s, Max, <<>>, Run(a, Len(h)), Run(b, Len(h)))
                            /\ h' = Append(h, <<a, b>>)
Outcomes(ops) == {<<<<o.task, o.store, o.rt>>, o.st>> : o \in {x \in ops : x.op = "exe"}}
Next == /\ Len(h) < N
        /\ (Single \/ (Par /\ Len(h) = N - 1 /\ Double))
        /\ last' = s
        /\ ended' = ended \cup Outcomes({h'[Len(h')][k] : k \in DOMAIN h'[Len(h')]})
Emit == Len(h') = N => PrintT("SCRIPT " \o ToJson([h |-> h']))

One == \A x, y \in DOMAIN s : Key(s[x]) = Key(s[y]) => x = y
Bounded == Len(s) <= Max
\* a final state is an announced outcome (or that there was no room) and never turns back
True_ == \A x \in DOMAIN s : s[x].st \in {"succeeded", "failed", "missed"} => <<Key(s[x]), s[x].st>> \in ended
Clears == h # <<>> /\ \E k \in DOMAIN h[Len(h)] : h[Len(h)][k].op = "clear"
Kept == ~Clears =>
  \A x \in DOMAIN last : (last[x].st \in Final /\ At(s, Key(last[x])) # {}
                          /\ (\E y \in At(s, Key(last[x])) : s[y].cre = last[x].cre)) =>
    \A y \in At(s, Key(last[x])) : s[y].st \in Final
Sums == LET c == Counts(s) IN
  c["running"] + c["succeeded"] + c["failed"] + c["missed"] + c["max_instances"] = Len(s)
=============================================================================
