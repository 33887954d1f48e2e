------------------------------- MODULE CliMC --------------------------------
(***************************************************************************)
(* Every sequence of commands from a small repertoire, on two stores.      *)
(***************************************************************************)
EXTENDS Cli, Json, IOUtils

N == atoi(IOEnv.LEN)
Sts == <<"durable", "other">>
IntT(p) == [k |-> "int", st |-> 0, per |-> p, en |-> NONE]
Arg(id, tr) == [id |-> id, sa |-> "durable", tr |-> tr, nrt |-> UNDEF, ex |-> "", co |-> UNDEF, mx |-> UNDEF, gr |-> UNDEF, nm |-> id,
                rep |-> FALSE, fn |-> "mark", ar |-> "[]", kw |-> "{}", how |-> "call", okargs |-> TRUE, mis |-> FALSE]
Ref(id) == [id |-> id, sa |-> "", force |-> TRUE, rmf |-> TRUE]
Up(dry, agree, us) == [id |-> "t1", sa |-> "", up |-> us, okargs |-> TRUE, dry |-> dry, agree |-> agree]
Repertoire ==
  {[op |-> "add", a |-> Arg("t1", IntT(5000))], [op |-> "add", a |-> Arg("t2", [k |-> "date", at |-> 7000])],
   [op |-> "remove", a |-> Ref("t1")], [op |-> "run", a |-> Ref("t1")], [op |-> "run", a |-> Ref("t2")],
   [op |-> "pause", a |-> Ref("t1")], [op |-> "resume", a |-> Ref("t1")], [op |-> "pause", a |-> Ref("t2")],
   [op |-> "update", a |-> Up(FALSE, "yes", <<[k |-> "mx", t |-> "int", i |-> 3]>>)],
   [op |-> "update", a |-> Up(FALSE, "n", <<[k |-> "co", t |-> "bool", i |-> 0]>>)],
   [op |-> "update", a |-> Up(FALSE, "y", <<[k |-> "co", t |-> "bool", i |-> 0]>>)],
   [op |-> "update", a |-> Up(TRUE, "yes", <<[k |-> "mx", t |-> "int", i |-> 3]>>)],
   [op |-> "status", a |-> [strict |-> FALSE, boot |-> FALSE]], [op |-> "adv", a |-> [to |-> 11000]]}

VARIABLES T, now, h, last
vars == <<T, now, h, last>>
Init == T = {} /\ now = 0 /\ h = <<>> /\ last = Plain({})
Next_ == /\ Len(h) < N
         /\ \E c \in Repertoire :
              /\ h' = Append(h, c)
              /\ IF c.op = "adv" THEN now' = now + c.a.to /\ UNCHANGED <<T, last>>
                 ELSE LET x == Cmd(T, Sts, c.op, c.a, now) IN T' = x.tasks /\ last' = x /\ now' = now
Emit == Len(h') = N => PrintT("SCRIPT " \o ToJson(h'))

Op == IF h = <<>> THEN "" ELSE h[Len(h)].op
Once == \A t, u \in T : Key(t) = Key(u) => t = u
\* nothing runs but by run, and a command which is refused changes nothing
Quiet == Op # "run" => last.calls = <<>> \/ Op = "adv"
Steady == [][(h'[Len(h')].op \in {"status", "adv"} \/ ~last'.ok) => T' = T]_vars
\* a run leaves the task in the future or ends it
Ahead == Op = "run" /\ last.ok => \A t \in T : t.id = h[Len(h)].a.id => (t.nrt # NONE /\ t.nrt > now)
=============================================================================
