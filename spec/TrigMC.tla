------------------------------- MODULE TrigMC -------------------------------
(***************************************************************************)
(* Bounded model of how triggers are asked: a given set of triggers, all   *)
(* chains of questions (afresh, after the previous answer, after a manual  *)
(* run now) on a grid of times around changes of the clock.  Trig's answers *)
(* are compared with an exhaustive search over the grid by the declarative *)
(* meaning Fires.  Every chain is printed, to be asked from the real code. *)
(***************************************************************************)
EXTENDS Trig, Json, IOUtils, TLC

Input == JsonDeserialize(IOEnv.INPUT)
Zones == Input.zones
Trigs == Input.trigs
Grid == {Input.grid[k] : k \in DOMAIN Input.grid}
MaxLen == Input.len

VARIABLES idx, prev, now, n, script
vars == <<idx, prev, now, n, script>>
View == <<idx, prev, now, n>>
T == Trigs[idx].t
Name == Trigs[idx].sched

RECURSIVE Fires(_, _, _)
Fires(tr, name, g) ==
  CASE tr.k = "date" -> g = Resolve(tr.at, Bound(tr, name))
    [] tr.k = "interval" ->
         LET st == Resolve(tr.st, Bound(tr, name)) IN
         /\ LeT(st, g) /\ ~PastEnd(g, Resolve(tr.en, Bound(tr, name)))
         /\ Multiple(SubT(g, st), tr.step) = SubT(g, st)
    [] tr.k = "cron" ->
         LET z == Bound(tr, name) IN
         /\ WallFits(Complete(tr.f), WallT(z, g))
         /\ tr.st # NoT => LeT(Resolve(tr.st, z), g)
         /\ ~PastEnd(g, Resolve(tr.en, z))
    [] tr.k = "or" -> \E k \in DOMAIN tr.ts : Fires(tr.ts[k], name, g)
    [] tr.k = "and" -> \A k \in DOMAIN tr.ts : Fires(tr.ts[k], name, g)
\* the exhaustive answer on the grid
Search(lo) == LET c == {g \in Grid : LeT(lo, g) /\ Fires(T, Name, g)} IN IF c = {} THEN NoT ELSE MinOfT(c)
Agree(lo) == LET x == From(T, Name, lo) y == Search(lo) IN
             IF y # NoT THEN x = y ELSE x = NoT \/ x \notin Grid \/ Undecided(x)

Answers(p) ==
  IF T.k = "cron"
  THEN LET z == Bound(T, Name)
           l == LoCron(T, z, IF p = NoT THEN now ELSE AddT(p, Tick))
           c == CronChoice(Complete(T.f), z, WallT(z, l), l)
       IN IF c.must = {} THEN {NoT} ELSE {IF PastEnd(t, Resolve(T.en, z)) THEN NoT ELSE t : t \in c.must}
  ELSE {Ideal(T, Name, p, now)}

Init == /\ idx \in DOMAIN Trigs
        /\ now \in {Input.starts[k] : k \in DOMAIN Input.starts}
        /\ prev = NoT /\ n = 0 /\ script = <<>>
Ask(p) ==
  /\ n < MaxLen /\ n' = n + 1
  /\ script' = Append(script, <<p, now>>)
  /\ \E a \in Answers(p) :
       /\ prev' = a
       /\ LET m == IF a = NoT \/ LtT(a, now) THEN now ELSE a
          IN now' \in {m, AddS(m, 900), AddS(m, 1)} /\ (m # now \/ now' # now \/ a = now)
  /\ UNCHANGED idx
Next_ == Ask(NoT) \/ (prev # NoT /\ Ask(prev)) \/ (prev # NoT /\ prev # now /\ Ask(now))

\* T01..T03 on the specification itself
Exhaustive == Agree(now) /\ Agree(AddT(now, Tick))
Forward == [][\A s \in {script'[Len(script')]} :
                 (s[1] # NoT /\ prev' # NoT) => LtT(s[1], prev')]_vars
Emit == IF n' = MaxLen \/ prev' = NoT THEN PrintT("SCRIPT " \o ToJson([i |-> idx, p |-> script'])) ELSE TRUE
=============================================================================
